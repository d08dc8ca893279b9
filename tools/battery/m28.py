import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutd as mut, flush
R='p28_code'
IO='caput/pipeline/tasklib/io.py'; S='caput/pipeline/runner/_scheduler/__init__.py'; T='caput/pipeline/runner/_scheduler/_default_systems.toml'; C='caput/pipeline/runner/_core.py'; PL='caput/pipeline/_pipeline.py'; MH='caput/memdata/_memh5.py'; MG='caput/util/mpitools.py'
CMD='''            command = shlex.join(
                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
            )
'''
RMV='command += f" && rm -r {shlex.quote(outfile)}"'
mut(R,[],'-- bugs')
mut(R,[(IO,CMD,'            command = f"{shlex.quote(self._path_7z)} a -tzip -mx=0 {dest_file} {shlex.quote(src_dir)}"\n')],'one unquoted')
mut(R,[(IO,CMD,'            command = " ".join([self._path_7z, "a", "-tzip", dest_file, src_dir])\n')],'joined with blanks')
mut(R,[(IO,CMD,'            command = "%s a -tzip -mx=0 \'%s\' \'%s\'" % (self._path_7z, dest_file, src_dir)\n')],'naive quotes')
mut(R,[(IO,RMV,'command += " && rm -r " + outfile')],'rm unquoted')
mut(R,[(IO,'                command = [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]','                command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}".split()')],'split argv')
mut(R,[(C,'        return yaml.safe_load(f)','        return yaml.load(f, Loader=yaml.FullLoader)')],'FullLoader')
mut(R,[(C,'        return yaml.safe_load(f)','        return yaml.load(f, Loader=yaml.Loader)')],'Loader')
mut(R,[(C,'        return yaml.safe_load(f)','        return yaml.unsafe_load(f)')],'unsafe_load')
mut(R,[(S,'            [system_config["command"], *extra_options, "jobscript.sh"],','            " ".join([system_config["command"], *extra_options, "jobscript.sh"]),\n            shell=True,')],'submit by shell')
mut(R,[(S,'''                option.format(email=email, mailtype=mailtype)
                for option in mail_config["options"].split()''','''                option
                for option in mail_config["options"].format(email=email, mailtype=mailtype).split()''')],'mail split')
mut(R,[(T,'cd \\"{workdir:s}\\"','cd {workdir:s}')],'cd unquoted')
mut(R,[(T,'mv \\"{workdir:s}\\" \\"{finaldir:s}\\"','mv \\"{workdir:s}\\" {finaldir:s}')],'mv unquoted')
mut(R,[(T,'mkdir -p \\"$(dirname \\"{finaldir:s}\\")\\"','mkdir -p $(dirname \\"{finaldir:s}\\")')],'dirname split')
mut(R,[],'-- refactors')
mut(R,[(IO,CMD,'            command = shlex.join([self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir])\n')],'one line')
mut(R,[(IO,CMD,'            args = [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]\n            command = shlex.join(args)\n')],'args var')
mut(R,[(IO,CMD,'            args = [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]\n            command = " ".join(shlex.quote(a) for a in args)\n')],'join quote')
mut(R,[(IO,CMD,'            args = [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]\n            command = " ".join(map(shlex.quote, args))\n')],'map quote')
mut(R,[(IO,CMD,'            command = self._zip_command(dest_file, src_dir)\n'),(IO,'class WaitZarrZip','def _unused():\n    pass\n\n\nclass WaitZarrZip'),(IO,'        # Increment the global operations counter\n        self.__class__','        # Increment\n        self.__class__'),(IO,'        return ZarrZipHandle(dest_file, bg_process)\n','        return ZarrZipHandle(dest_file, bg_process)\n\n    def _zip_command(self, dest, src):\n        return shlex.join([self._path_7z, "a", "-tzip", "-mx=0", dest, src])\n')],'helper')
mut(R,[(IO,RMV,'command = command + " && " + shlex.join(["rm", "-r", outfile])')],'rm join')
mut(R,[(IO,RMV,'quoted = shlex.quote(outfile)\n                command = "{} && rm -r {}".format(command, quoted)')],'rm format')
mut(R,[(IO,'''            bg_process = subprocess.Popen(
                command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
            )''','''            bg_process = self._start(command)'''),(IO,'        return ZarrZipHandle(dest_file, bg_process)\n','        return ZarrZipHandle(dest_file, bg_process)\n\n    @staticmethod\n    def _start(command):\n        return subprocess.Popen(\n                command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE\n            )\n')],'popen helper')
mut(R,[(C,'        return yaml.safe_load(f)','        return yaml.load(f, Loader=yaml.SafeLoader)')],'SafeLoader')
mut(R,[(S,'            [system_config["command"], *extra_options, "jobscript.sh"],','            argv,'),(S,'        subprocess.run(\n','        argv = [system_config["command"]]\n        argv.extend(extra_options)\n        argv.append("jobscript.sh")\n        subprocess.run(\n')],'argv')
mut(R,[(S,'''            extra_options = [
                option.format(email=email, mailtype=mailtype)
                for option in mail_config["options"].split()
            ]''','''            extra_options = []
            for option in mail_config["options"].split():
                extra_options.append(option.format(email=email, mailtype=mailtype))''')],'mail loop')
mut(R,[(S,'''            extra_options = [
                option.format(email=email, mailtype=mailtype)
                for option in mail_config["options"].split()
            ]''','''            extra_options = _mail(mail_config, email, mailtype)'''),(S,'def _resolve_system_config','def _mail(mail_config, email, mailtype):\n    values = dict(email=email, mailtype=mailtype)\n    return [o.format(**values) for o in mail_config["options"].split()]\n\n\ndef _resolve_system_config')],'mail helper')
mut(R,[(S,'conf["logpath"] = directories["jobdir"] / "jobout.log"','jobdir = directories["jobdir"]\n    conf["logpath"] = jobdir / "jobout.log"')],'jobdir var')
mut(R,[(S,'conf["workdir"] = directories["workdir"]\n','conf.update(workdir=directories["workdir"])\n')],'update')
flush()
