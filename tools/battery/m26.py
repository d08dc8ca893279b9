import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutd as mut, flush
R='p26_jobs'
S='caput/pipeline/runner/_scheduler/__init__.py'; T='caput/pipeline/runner/_scheduler/_default_systems.toml'
EX='''    if jobdir.exists():
        if overwrite == "never":
            logger.info(f"Job already exists at {workdir}. Skipping.")
            return None

        if overwrite == "failed" and statusfile.exists():
            with open(statusfile) as fh:
                contents = fh.read()
                if "FINISHED" in contents:
                    logger.info(
                        f"Successful job already exists at {workdir}. Skipping."
                    )
                    return None
    else:
        jobdir.mkdir(parents=True)
'''
assert EX in open('/repo/'+S).read()
CP='''    if sfile != dfile:
        shutil.copyfile(sfile, dfile)
'''
WR='''    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
        f.write(jobscript)
'''
SUB='''    if submit:
        # NOTE'''
mut(R,[],'-- bugs')
mut(R,[(S,EX,EX.replace('''        if overwrite == "never":
            logger.info(f"Job already exists at {workdir}. Skipping.")
            return None
''','''        if overwrite == "never":
            logger.info(f"Job already exists at {workdir}. Skipping.")
'''))],'never goes on')
mut(R,[(S,EX,EX.replace('if jobdir.exists():\n        if overwrite == "never":','if jobdir.exists():\n        if overwrite == "never" and statusfile.exists():'))],'never only with status')
mut(R,[(S,EX,EX.replace('if "FINISHED" in contents','if "FINISHED" not in contents'))],'inverted finished')
mut(R,[(S,EX,EX.replace('if "FINISHED" in contents','if "RUNNING" in contents'))],'running instead of finished')
mut(R,[(S,EX,EX.replace('if overwrite == "failed" and statusfile.exists()','if overwrite == "failed" and not statusfile.exists()'))],'inverted statusfile')
mut(R,[(S,EX,'    jobdir.mkdir(parents=True, exist_ok=True)\n'+EX)],'mkdir first')
mut(R,[(S,'    if not directories:\n        # The job already exists and we are not overwriting\n        return\n',''),],'no return') 
mut(R,[(S,CP,'')],'config not copied')
mut(R,[(S,CP,CP.replace('sfile != dfile','dfile.exists()'))],'copied only if there')
mut(R,[(S,SUB,SUB.replace('if submit:','if submit or overwrite == "failed":'))],'submit unasked')
mut(R,[(S,SUB,SUB.replace('if submit:','if submit and email is None:'))],'not submitted with email')
mut(R,[(S,'            cwd=directories["jobdir"],\n','            cwd=directories["workdir"],\n')],'wrong cwd')
mut(R,[(S,'            cwd=directories["jobdir"],\n','')],'no cwd')
mut(R,[(S,WR,WR.replace('jobscript.sh','job.sh'))],'other script name')
mut(R,[(S,'    if lint:\n        lint_config(configfile)\n\n',''),(S,'    # Copy the config file to the job','    if lint:\n        lint_config(configfile)\n\n    # Copy the config file to the job')],'lint late')
mut(R,[(S,'    conf["usetemp"] = 1 if conf["finaldir"] != conf["workdir"] else 0\n','')],'usetemp missing')
mut(R,[(S,'        if isinstance(value, Path) or key == "time":\n','        if key == "time":\n')],'paths not text')
mut(R,[(S,'    resolved_config["psutil"] = "--psutil" if psutil else ""\n','    if psutil:\n        resolved_config["psutil"] = "--psutil"\n')],'psutil only if on')
mut(R,[(S,'conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")','pass')],'invoke default missing')
mut(R,[(T,'"mem", "directory", "ompnum", "pernode", "account"]','"mem", "directory", "ompnum", "pernode"]')],'account not required')
mut(R,[(T,'set -e\n','')],'no set -e')
mut(R,[(T,'trap setCrashed ERR\n','')],'no trap')
mut(R,[(T,'# Set the status\necho FINISHED > \\"{statuspath:s}\\"\n',''),(T,'{modules:s}\n','echo FINISHED > \\"{statuspath:s}\\"\n{modules:s}\n')],'finished early')
mut(R,[(T,'&> \\"{logpath:s}\\"','2>&1 | tee \\"{logpath:s}\\"')],'pipe hides failure')
mut(R,[(T,'&> \\"{logpath:s}\\"','&> \\"{logpath:s}\\" || true')],'or true')
mut(R,[(T,'mv \\"{workdir:s}\\" \\"{finaldir:s}\\"','mv \\"{finaldir:s}\\" \\"{workdir:s}\\"')],'mv swapped')
mut(R,[(T,'if [ {usetemp:d} -eq 1 ]','if [ {usetemp:d} -eq 0 ]')],'usetemp inverted')
mut(R,[(S,'conf["usetemp"] = 1 if conf["finaldir"] != conf["workdir"] else 0','conf["usetemp"] = 1 if conf["finaldir"] == conf["workdir"] else 0')],'usetemp value inverted')
mut(R,[(S,'conf["configpath"] = directories["jobdir"] / "config.yaml"','conf["configpath"] = directories["workdir"] / "config.yaml"')],'configpath elsewhere')
mut(R,[(S,'conf["statuspath"] = directories["jobdir"] / "STATUS"','conf["statuspath"] = directories["jobdir"] / "status"')],'status file other name')
mut(R,[(S,'conf["statuspath"] = directories["jobdir"] / "STATUS"','conf["statuspath"] = directories["workdir"] / "STATUS"')],'status file other dir')
mut(R,[(S,'conf["mpiproc"] = conf["nodes"] * conf["pernode"]','conf["mpiproc"] = conf["nodes"]')],'mpiproc')
mut(R,[(S,'resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""','resolved_config["profiler"] = f"--profiler={profile}" if profiler else ""')],'profiler swapped')
mut(R,[(S,'            submit=True,\n','')],'template not submitted')
mut(R,[(S,'            overwrite=overwrite,\n','            overwrite="failed",\n')],'template overwrite fixed')
mut(R,[(S,'            check=True,\n','')],'no check')
mut(R,[(S,'        f.write(jobscript)\n','        f.write(str(resolved_config))\n')],'wrong content')
mut(R,[],'-- refactors')
mut(R,[(S,EX,'''    if not jobdir.exists():
        jobdir.mkdir(parents=True)
    elif overwrite == "never":
        logger.info(f"Job already exists at {workdir}. Skipping.")
        return None
    elif overwrite == "failed" and _finished(statusfile):
        logger.info(f"Successful job already exists at {workdir}. Skipping.")
        return None
'''),(S,'def _create_job_environment_strings','''def _finished(statusfile):
    if not statusfile.exists():
        return False
    with open(statusfile) as fh:
        return "FINISHED" in fh.read()


def _create_job_environment_strings''')],'helper finished')
mut(R,[(S,EX,'''    if jobdir.exists() and overwrite == "never":
        logger.info(f"Job already exists at {workdir}. Skipping.")
        return None
    if jobdir.exists() and overwrite == "failed" and statusfile.exists():
        contents = statusfile.read_text()
        if "FINISHED" in contents:
            logger.info("Successful")
            return None
    jobdir.mkdir(parents=True, exist_ok=True)
''')],'flat + read_text')
mut(R,[(S,EX,EX.replace('jobdir.exists()','os.path.exists(jobdir)').replace('jobdir.mkdir(parents=True)','os.makedirs(jobdir)').replace('statusfile.exists()','os.path.isfile(statusfile)'))],'os.path')
mut(R,[(S,EX,'''    exists = jobdir.exists()
    if exists:
        if overwrite == "never":
            return None
        if overwrite == "failed":
            try:
                contents = statusfile.read_text()
            except FileNotFoundError:
                contents = ""
            if "FINISHED" in contents:
                return None
    if not exists:
        jobdir.mkdir(parents=True)
''')],'try read')
mut(R,[(S,EX,EX.replace('                if "FINISHED" in contents:\n                    logger.info(\n                        f"Successful job already exists at {workdir}. Skipping."\n                    )\n                    return None','            if "FINISHED" in contents:\n                logger.info("x")\n                return None'))],'dedent')
mut(R,[(S,CP,'    _copy_config(sfile, dfile)\n'),(S,'def _create_job_environment_strings','def _copy_config(src, dst):\n    import shutil\n\n    if src == dst:\n        return\n    shutil.copyfile(src, dst)\n\n\ndef _create_job_environment_strings')],'copy helper')
mut(R,[(S,CP,CP.replace('shutil.copyfile(sfile, dfile)','shutil.copy(sfile, dfile)'))],'shutil.copy')
mut(R,[(S,CP,'    if sfile != dfile:\n        dfile.write_text(sfile.read_text())\n')],'write_text copy')
mut(R,[(S,WR,'    (directories["jobdir"] / "jobscript.sh").write_text(jobscript)\n')],'write_text')
mut(R,[(S,WR,'    script = directories["jobdir"] / "jobscript.sh"\n    with script.open("w") as f:\n        f.write(jobscript)\n')],'script.open')
mut(R,[(S,WR,'    jobdir = directories["jobdir"]\n    with open(jobdir / "jobscript.sh", "w") as f:\n        f.write(jobscript)\n'),(S,'            cwd=directories["jobdir"],\n','            cwd=jobdir,\n')],'jobdir var')
mut(R,[(S,SUB,'''    if not submit:
        return

    if True:
        # NOTE''')],'early return')
mut(R,[(S,'        subprocess.run(\n            [system_config["command"], *extra_options, "jobscript.sh"],\n            cwd=directories["jobdir"],\n            env=os.environ,\n            check=True,\n        )\n','        _submit(system_config["command"], extra_options, directories["jobdir"])\n'),(S,'def _create_job_environment_strings','def _submit(command, options, jobdir):\n    import subprocess\n\n    subprocess.check_call([command] + list(options) + ["jobscript.sh"], cwd=jobdir, env=os.environ)\n\n\ndef _create_job_environment_strings')],'submit helper')
mut(R,[(S,'''    resolved_config["profile"] = "--profile" if profile else ""
    resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
    resolved_config["psutil"] = "--psutil" if psutil else ""
''','''    resolved_config.update(_profiling(profile, profiler, psutil))
'''),(S,'def _create_job_environment_strings','def _profiling(profile, profiler, psutil):\n    options = {"profile": "", "profiler": "", "psutil": ""}\n    if profile:\n        options["profile"] = "--profile"\n        options["profiler"] = f"--profiler={profiler}"\n    if psutil:\n        options["psutil"] = "--psutil"\n    return options\n\n\ndef _create_job_environment_strings')],'profiling helper')
mut(R,[(S,'''    resolved_config["profile"] = "--profile" if profile else ""
    resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
    resolved_config["psutil"] = "--psutil" if psutil else ""
''','''    resolved_config |= {
        "profile": "--profile" if profile else "",
        "profiler": f"--profiler={profiler}" if profile else "",
        "psutil": "--psutil" if psutil else "",
    }
''')],'dict |=')
mut(R,[(S,'''    if "invoke" not in conf:
        conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")

    if "invoke_args" not in conf:
        # There may be nothing here, but still need an empty
        # string to satisfy the script template
        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
''','''    defaults = REGISTERED_SYSTEMS[system]
    conf.setdefault("invoke", defaults.get("invoke", "mpirun"))
    conf.setdefault("invoke_args", defaults.get("invoke_args", ""))
''')],'setdefault')
mut(R,[(S,'''    for key, value in conf.items():
        if isinstance(value, Path) or key == "time":
            conf[key] = str(value)
''','''    conf = {
        k: str(v) if isinstance(v, Path) or k == "time" else v for k, v in conf.items()
    }
''')],'comprehension')
mut(R,[(S,'''    for key, value in conf.items():
        if isinstance(value, Path) or key == "time":
            conf[key] = str(value)
''','''    _stringify(conf)
'''),(S,'def _create_job_environment_strings','def _stringify(conf):\n    for key in list(conf):\n        if isinstance(conf[key], Path) or key == "time":\n            conf[key] = str(conf[key])\n\n\ndef _create_job_environment_strings')],'stringify helper')
mut(R,[(S,'    conf["usetemp"] = 1 if conf["finaldir"] != conf["workdir"] else 0\n','    conf["usetemp"] = int(conf["finaldir"] != conf["workdir"])\n')],'usetemp int')
mut(R,[(S,'    conf["usetemp"] = 1 if conf["finaldir"] != conf["workdir"] else 0\n','    conf["usetemp"] = 0 if conf["finaldir"] == conf["workdir"] else 1\n')],'usetemp swap')
mut(R,[(S,'    conf["mpiproc"] = conf["nodes"] * conf["pernode"]\n','    conf["mpiproc"] = conf["pernode"] * conf["nodes"]\n')],'mpiproc swap')
mut(R,[(S,'    directories["jobdir"] = jobdir\n    directories["workdir"] = workdir\n    directories["finaldir"] = finaldir\n\n    return directories','    return {"jobdir": jobdir, "workdir": workdir, "finaldir": finaldir}')],'dict literal')
mut(R,[(S,'    if not directories:\n','    if directories is None:\n')],'is None')
mut(R,[(T,'if [ {usetemp:d} -eq 1 ]\nthen','if [ {usetemp:d} -eq 1 ]; then')],'then same line')
mut(R,[(T,'function setCrashed {{\n    echo CRASHED > \\"{statuspath:s}\\"\n}}\n\ntrap setCrashed ERR\n','trap \'echo CRASHED > \\"{statuspath:s}\\"\' ERR\n')],'inline trap')
flush()
