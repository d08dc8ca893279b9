import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p07_handles'
IO='caput/memdata/_io.py'; MH='caput/memdata/_memh5.py'; A='caput/mpiarray.py'; MP='caput/util/mpitools.py'; TOD='caput/containers/tod.py'; PL='caput/pipeline/_pipeline.py'; SC='caput/pipeline/runner/_scheduler/__init__.py'; RC='caput/pipeline/runner/_core.py'; TIO='caput/pipeline/tasklib/io.py'; PR='caput/util/profiler.py'; DB='caput/pipeline/tasklib/debug.py'
def one(p,a,b,n): mut(R,[(p,a,b)],n)
hd('-- bugs')
one(A,'            if fh.opened:\n                fh.close()\n','            fh.close()\n','caller closed (to_hdf5)')
one(A,'            if file_format == fileformats.HDF5 and fh.opened:\n                fh.close()','            if file_format == fileformats.HDF5:\n                fh.close()','caller closed (from_file)')
one(A,'            if file_format == fileformats.HDF5 and fh.opened:\n                fh.close()','            if file_format == fileformats.HDF5 and fh.opened and fh.is_mpi:\n                fh.close()','closed only mpi')
one(A,'            if file_format == fileformats.HDF5 and fh.opened:\n                fh.close()','            if file_format == fileformats.HDF5 and not fh.opened:\n                fh.close()','inverted')
one(A,'        finally:\n            if fh.opened:\n                fh.close()\n','        except OSError:\n            raise\n        else:\n            if fh.opened:\n                fh.close()\n','not on error')
one(A,'        try:\n            sel = self._make_selections()\n','        sel = self._make_selections()\n        try:\n','sel outside try')
one(A,'        fh = open_h5py_mpi(f, mode, comm=self.comm)\n\n        try:\n','        fh = open_h5py_mpi(f, mode, comm=self.comm)\n        if not fh.is_mpi and compression is not None:\n            return\n\n        try:\n','early return')
one(A,'            if ri == rank:\n                with open_h5py_mpi(filename, "r+", use_mpi=False) as fh:\n                    start = dist_arr.local_offset[0]\n                    end = start + dist_arr.local_shape[0]\n\n                    fh[dataset][start:end] = dist_arr\n','            if ri == rank:\n                fh = open_h5py_mpi(filename, "r+", use_mpi=False)\n                start = dist_arr.local_offset[0]\n                end = start + dist_arr.local_shape[0]\n\n                fh[dataset][start:end] = dist_arr\n','serial not closed')
one(A,'            if ri == rank:\n                with open_h5py_mpi(filename, "r+", use_mpi=False) as fh:\n                    start = dist_arr.local_offset[0]\n                    end = start + dist_arr.local_shape[0]\n\n                    fh[dataset][start:end] = dist_arr\n','            if ri == rank:\n                fh = open_h5py_mpi(filename, "r+", use_mpi=False)\n                start = dist_arr.local_offset[0]\n                end = start + dist_arr.local_shape[0]\n\n                fh[dataset][start:end] = dist_arr\n                fh.close()\n','serial not closed on error')
one(IO,'        fh.opened = True\n','        fh.opened = False\n','opened False')
one(IO,'        fh.opened = False\n','        fh.opened = True\n','given marked opened')
one(TOD,'            if toclose and isinstance(first_file, h5py.File):\n','            if isinstance(first_file, h5py.File):\n','tod closes caller')
one(TOD,'            if toclose and isinstance(first_file, h5py.File):\n                first_file.close()','            pass','tod not closed')
one(TOD,'        first_file, toclose = memdata._memh5.get_file(files[0], file_format=file_format)\n\n        try:\n','        first_file, toclose = memdata._memh5.get_file(files[0], file_format=file_format)\n        self._attrs = dict(first_file.attrs)\n\n        try:\n','attrs before try')
one(MP,'    finally:\n        os.close(fd)\n','    except OSError:\n        os.close(fd)\n        raise\n','fd leak')
one(MP,'    try:\n        fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)\n','    fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)\n    try:\n        pass\n','lock outside try')
one(MP,'        with h5py.File(fname, "a") as f:','        f = h5py.File(fname, "a")\n        if True:','alloc not closed')
one(MH,'            self._storage_root.close()\n','            self._storage_root.flush()\n','close only flushes')
one(MH,'        if self.ondisk and hasattr(self, "_toclose") and self._toclose:\n            self._storage_root.close()','        if self.ondisk:\n            self._storage_root.close()','close closes caller')
one(MH,'            toclose = toclose and isinstance(data_group, h5py.File)\n','            toclose = isinstance(data_group, h5py.File)\n','toclose given file')
one(MH,'            toclose = toclose and isinstance(data_group, h5py.File)\n','            toclose = toclose and not isinstance(data_group, h5py.File)\n','toclose inverted')
one(MH,'                toclose = file_format == fileformats.HDF5\n','                toclose = file_format == fileformats.Zarr\n','from_file toclose')
one(MH,'                data = file_\n                toclose = False\n','                data = file_\n                toclose = True\n','given group toclose')
one(MH,'        self._toclose = toclose\n\n        if lockfile','        self._toclose = False\n\n        if lockfile','from_file never closes')
one(MH,'        self.close()\n','        self.flush()\n','exit does not close')
one(MH,'    if is_group(f):\n        return f, False\n','    if is_group(f):\n        return f, True\n','get_file given True')
one(MH,'    return file_format.open(f, **kwargs), True\n','    return file_format.open(f, **kwargs), False\n','get_file opened False')
one(MH,'        with open_h5py_mpi(fname, "r", comm=comm) as f:\n            # Start recursive file read\n            _copy_from_file(f, group, selections)','        f = open_h5py_mpi(fname, "r", comm=comm)\n        _copy_from_file(f, group, selections)\n        f.close()','dist read not on error')
one(MH,'            with file_format.open(filename, mode, **kwargs) as f:\n','            f = file_format.open(filename, mode, **kwargs)\n            if True:\n','to_file not closed')
one(MH,'            with file_format.open(filename, **kwargs) as f:\n                self = cls(','            f = file_format.open(filename, **kwargs)\n            if f:\n                self = cls(','from_file not closed')
one(PL,'            with open(file_name) as f:\n                yaml_doc = f.read()','            yaml_doc = open(file_name).read()','open read')
one(RC,'    with open(templatefile) as f:\n','    f = open(templatefile)\n    if f:\n','template')
one(SC,'            with open(statusfile) as fh:\n                contents = fh.read()\n                if "FINISHED" in contents:','            fh = open(statusfile)\n            if fh:\n                contents = fh.read()\n                if "FINISHED" in contents:','status')
one(TIO,'                with fileformats.guess_file_format(filename).open(filename, "r") as fh:\n                    clspath = MemDiskGroup._detect_subclass_path(fh)','                fh = fileformats.guess_file_format(filename).open(filename, "r")\n                clspath = MemDiskGroup._detect_subclass_path(fh)','clspath leak')
one(PR,'            with open(self.path, mode="w") as fp:','            fp = open(self.path, mode="w")\n            if fp:','profiler')
one(DB,'        with open(fname, "w") as f:','        f = open(fname, "w")\n        if f:','debug')
hd('-- refactors')
one(A,'            if file_format == fileformats.HDF5 and fh.opened:\n                fh.close()','            if file_format == fileformats.HDF5:\n                if fh.opened:\n                    fh.close()','nested if')
one(A,'            if fh.opened:\n                fh.close()\n','            self._release(fh)\n','x') if 0 else None
mut(R,[(A,'            if fh.opened:\n                fh.close()\n','            _close_if_opened(fh)\n'),(A,'def zeros(','def _close_if_opened(fh):\n    """Close a file unless the caller had it open."""\n    if fh.opened:\n        fh.close()\n\n\ndef zeros(')],'close helper')
mut(R,[(A,'            if fh.opened:\n                fh.close()\n','            _close_if_opened(fh)\n'),(A,'def zeros(','def _close_if_opened(fh):\n    """Close a file unless the caller had it open."""\n    if not fh.opened:\n        return\n    fh.close()\n\n\ndef zeros(')],'close helper return')
one(PL,'            with open(file_name) as f:\n                yaml_doc = f.read()','            yaml_doc = pathlib.Path(file_name).read_text()','read_text') if 0 else None
one(PL,'            with open(file_name) as f:\n                yaml_doc = f.read()','            f = open(file_name)\n            try:\n                yaml_doc = f.read()\n            finally:\n                f.close()','try finally')
one(TOD,'            if toclose and isinstance(first_file, h5py.File):\n                first_file.close()','            if isinstance(first_file, h5py.File):\n                if toclose:\n                    first_file.close()','nested')
one(TOD,'            if toclose and isinstance(first_file, h5py.File):\n                first_file.close()','            close_it = toclose and isinstance(first_file, h5py.File)\n            if close_it:\n                first_file.close()','var')
one(MH,'        with open_h5py_mpi(fname, "r", comm=comm) as f:\n            # Start recursive file read\n            _copy_from_file(f, group, selections)','        f = open_h5py_mpi(fname, "r", comm=comm)\n        try:\n            _copy_from_file(f, group, selections)\n        finally:\n            f.close()','try finally')
one(MH,'    if is_group(f):\n        return f, False\n','    opened = not is_group(f)\n    if not opened:\n        return f, opened\n','opened var')
mut(R,[(MH,'    if is_group(f):\n        return f, False\n','    toclose = False\n    if is_group(f):\n        return f, toclose\n'),(MH,'    return file_format.open(f, **kwargs), True\n','    f = file_format.open(f, **kwargs)\n    toclose = True\n    return f, toclose\n')],'toclose var')
one(MH,'        if self.ondisk and hasattr(self, "_toclose") and self._toclose:\n            self._storage_root.close()','        if self.ondisk and getattr(self, "_toclose", False):\n            self._storage_root.close()','getattr')
one(MH,'        if self.ondisk and hasattr(self, "_toclose") and self._toclose:\n            self._storage_root.close()','        toclose = getattr(self, "_toclose", False)\n        if self.ondisk and toclose:\n            root = self._storage_root\n            root.close()','getattr var')
one(MH,'            toclose = toclose and isinstance(data_group, h5py.File)\n','            if not isinstance(data_group, h5py.File):\n                toclose = False\n','if not')
one(MP,'        with h5py.File(fname, "a") as f:','        with contextlib.closing(h5py.File(fname, "a")) as f:','closing')
one(SC,'            with open(statusfile) as fh:\n                contents = fh.read()\n                if "FINISHED" in contents:\n                    logger.info(\n                        f"Successful job already exists at {workdir}. Skipping."\n                    )\n                    return None','            if "FINISHED" in statusfile.read_text():\n                logger.info(\n                    f"Successful job already exists at {workdir}. Skipping."\n                )\n                return None','read_text')
mut(R,[(RC,'    with open(templatefile) as f:\n','    with _open(templatefile) as f:\n'),(RC,'def template(','def _open(path):\n    return open(path)\n\n\ndef template(')],'open helper') if 0 else None
done()
