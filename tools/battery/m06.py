import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p06_lockfile'
IO='caput/memdata/_io.py'; EX='caput/pipeline/extensions/_extensions.py'
def one(a,b,n,p=IO): mut(R,[(p,a,b)],n)
ENT='        if self.rank0:\n            with open(self.lockfile, "w+") as fh:\n                fh.write("")\n\n        return self.tmpfile\n'
EXI=open('/repo/'+IO).read(); EXI=EXI[EXI.index('        if self.rank0:\n            try:'):EXI.index('        return False\n\n    @property')]
hd('-- bugs')
one('os.rename(self.tmpfile, self.filename)','shutil.copy(self.tmpfile, self.filename)','copy')
one('os.rename(self.tmpfile, self.filename)','if os.path.exists(self.filename):\n                        remove_file_or_dir(self.filename)\n                    os.rename(self.tmpfile, self.filename)','remove first')
one('return self.tmpfile\n','return self.filename\n','final handed out')
one('os.path.join(base, "." + fname)','os.path.join("/tmp", "." + fname)','tmp elsewhere')
one('os.path.join(base, "." + fname)','os.path.join(tempfile.gettempdir(), "." + fname)','tempdir')
one('os.path.join(base, "." + fname)','"." + fname','cwd')
one('os.path.join(base, "." + fname)','os.path.join(base, fname)','tmp is final')
one('return self.tmpfile + ".lock"','return self.tmpfile','lock is tmp')
one('        return False\n\n    @property','        return True\n\n    @property','swallow')
one('        return False\n\n    @property','        return exc_type is OSError\n\n    @property','swallow oserror')
one('        return False\n\n    @property','        return self.preserve\n\n    @property','swallow preserve')
one('                if exc_type is not None:\n                    if not self.preserve:','                if exc_type is not None:\n                    if self.preserve:','preserve inverted')
one('                if exc_type is not None:\n                    if not self.preserve:\n                        remove_file_or_dir(self.tmpfile)\n                # Otherwise things were successful and we should move the file over\n                else:\n                    os.rename','                if exc_type is not None and not self.preserve:\n                    remove_file_or_dir(self.tmpfile)\n                else:\n                    os.rename','preserve publishes')
one('if exc_type is not None:','if exc_type is not None and issubclass(exc_type, Exception):','KeyboardInterrupt publishes')
one('if exc_type is not None:','if exc_val is not None and exc_type is not GeneratorExit:','x publishes')
one('            finally:\n                # Finally remove the lock file\n                os.remove(self.lockfile)','            except OSError:\n                pass\n            os.remove(self.lockfile)','publish failure swallowed')
one(EXI,'        if self.rank0:\n            if exc_type is not None:\n                if not self.preserve:\n                    remove_file_or_dir(self.tmpfile)\n            else:\n                os.rename(self.tmpfile, self.filename)\n            os.remove(self.lockfile)\n\n','no finally')
one(EXI,'        if self.rank0:\n            os.remove(self.lockfile)\n            if exc_type is not None:\n                if not self.preserve:\n                    remove_file_or_dir(self.tmpfile)\n            else:\n                os.rename(self.tmpfile, self.filename)\n\n','lock first')
one('            finally:\n                # Finally remove the lock file\n                os.remove(self.lockfile)','            finally:\n                if exc_type is None:\n                    os.remove(self.lockfile)','lock kept on failure')
one('            finally:\n                # Finally remove the lock file\n                os.remove(self.lockfile)','            finally:\n                if not self.preserve:\n                    os.remove(self.lockfile)','lock kept when preserved')
one('self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = comm is not None and comm.rank == 0','serial no lock')
one('self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = True','all ranks')
one('self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = comm is None or comm.size == 1','nobody')
one(ENT,'        with open(self.lockfile, "w+") as fh:\n            fh.write("")\n\n        return self.tmpfile\n','lock by all')
one(ENT,'        return self.tmpfile\n','no lock')
one(ENT,'        if self.rank0 and not os.path.exists(self.filename):\n            with open(self.lockfile, "w+") as fh:\n                fh.write("")\n\n        return self.tmpfile\n','lock only if new')
one(ENT,'        if self.rank0:\n            if os.path.exists(self.filename):\n                os.remove(self.filename)\n            with open(self.lockfile, "w+") as fh:\n                fh.write("")\n\n        return self.tmpfile\n','old removed at entry')
one('            # Lock file\n            with lock_file(filename, comm=output.comm) as fn:\n                output.to_file(fn,','            # Lock file\n            with lock_file(filename, comm=output.comm):\n                output.to_file(filename,','final written',EX)
one('                output.to_file(fn, mode="w"','                output.to_file(str(filename), mode="w"','final written str',EX)
one('                output.to_file(fn, mode="w", file_format=file_format, **kwargs)\n            return','                pass\n            output.to_file(fn, mode="w", file_format=file_format, **kwargs)\n            return','written after',EX)
one('                output.to_file(fn, mode="w", file_format=file_format, **kwargs)\n            return','                target = filename if file_format == fileformats.Zarr else fn\n                output.to_file(target, mode="w", file_format=file_format, **kwargs)\n            return','zarr in place',EX)
one('                output.to_file(fn, mode="w", file_format=file_format, **kwargs)\n            return','                try:\n                    output.to_file(fn, mode="w", file_format=file_format, **kwargs)\n                except OSError:\n                    self.log.error("failed")\n            return','swallowed in body',EX)
one('            if os.path.isdir(name)','            if False','x',IO) if 0 else None
hd('-- refactors')
one('os.rename(self.tmpfile, self.filename)','os.replace(self.tmpfile, self.filename)','replace')
one('        base, fname = os.path.split(self.filename)\n        return os.path.join(base, "." + fname)','        base = os.path.dirname(self.filename)\n        fname = os.path.basename(self.filename)\n        return os.path.join(base, f".{fname}")','dirname')
one('return self.tmpfile + ".lock"','return f"{self.tmpfile}.lock"','fstring')
one('        return False\n\n    @property','        return None\n\n    @property','return None')
one('        return False\n\n    @property','    @property','no return')
one(EXI,'        if self.rank0:\n            self._finish(exc_type is not None)\n\n','finish helper') if 0 else None
mut(R,[(IO,EXI,'        if not self.rank0:\n            return False\n        try:\n            self._finish(exc_type is not None)\n        finally:\n            os.remove(self.lockfile)\n\n'),(IO,'        return False\n\n    @property','        return False\n\n    def _finish(self, failed):\n        if not failed:\n            os.rename(self.tmpfile, self.filename)\n        elif not self.preserve:\n            remove_file_or_dir(self.tmpfile)\n\n    @property')],'finish helper')
one('            with open(self.lockfile, "w+") as fh:\n                fh.write("")\n','            open(self.lockfile, "w").close()\n','open close')
one('            with open(self.lockfile, "w+") as fh:\n                fh.write("")\n','            pathlib.Path(self.lockfile).touch()\n','touch') if 0 else None
mut(R,[(IO,'        self.preserve = preserve\n','        self.preserve = preserve\n        base, fname = os.path.split(filename)\n        self._tmp = os.path.join(base, "." + fname)\n'),(IO,'        base, fname = os.path.split(self.filename)\n        return os.path.join(base, "." + fname)','        return self._tmp')],'tmp at init')
mut(R,[(IO,'self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = comm is None or comm.rank == 0')],'or')
mut(R,[(IO,'self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = True\n        if comm is not None:\n            self.rank0 = comm.rank == 0')],'if')
mut(R,[(IO,'self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = True if comm is None else not comm.rank')],'not rank')
one('            with lock_file(filename, comm=output.comm) as fn:\n                output.to_file(fn,','            with lock_file(filename, comm=output.comm) as tmpname:\n                output.to_file(tmpname,','rename var',EX)
one('            with lock_file(filename, comm=output.comm) as fn:\n                output.to_file(fn,','            lock = lock_file(filename, comm=output.comm)\n            with lock as fn:\n                output.to_file(fn,','lock var',EX)
one('                if exc_type is not None:\n                    if not self.preserve:\n                        remove_file_or_dir(self.tmpfile)\n                # Otherwise things were successful and we should move the file over\n                else:\n                    os.rename(self.tmpfile, self.filename)\n','                if exc_type is None:\n                    os.rename(self.tmpfile, self.filename)\n                elif not self.preserve:\n                    remove_file_or_dir(self.tmpfile)\n','elif')
one('                if exc_type is not None:\n                    if not self.preserve:\n                        remove_file_or_dir','                failed = exc_type is not None\n                if failed:\n                    if not self.preserve:\n                        remove_file_or_dir','failed var')
mut(R,[(IO,'class lock_file:','class _Base:\n    pass\n\n\nclass lock_file(_Base):')],'base class')
done()
