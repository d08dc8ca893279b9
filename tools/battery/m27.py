import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p27_process'
I='caput/algorithms/_invert_no_zero/__init__.py'; IO='caput/pipeline/tasklib/io.py'; S='caput/pipeline/runner/_scheduler/__init__.py'; A='caput/mpiarray.py'; AR='caput/algorithms/random.py'; RT='caput/pipeline/tasklib/random.py'; AT='caput/util/arraytools.py'; MT='caput/util/mpitools.py'; PL='caput/pipeline/_pipeline.py'; T='caput/astro/time.py'; FF='caput/memdata/fileformats.py'; PR='caput/util/profiler.py'; SF='caput/astro/skyfield.py'; CO='caput/config.py'
E='        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):\n            return np.where(x == 0, 0.0, 1.0 / x)\n'
hd('bugs')
mut(R,[(I,E,'        np.seterr(divide="ignore", invalid="ignore", over="ignore")\n        return np.where(x == 0, 0.0, 1.0 / x)\n')],'seterr')
mut(R,[(I,E,'        old = np.seterr(divide="ignore", invalid="ignore", over="ignore")\n        y = np.where(x == 0, 0.0, 1.0 / x)\n        np.seterr(**old)\n        return y\n')],'seterr restore no finally')
mut(R,[(S,'            cwd=directories["jobdir"],\n',''),(S,'        subprocess.run(\n            [system','        os.chdir(directories["jobdir"])\n        subprocess.run(\n            [system')],'chdir')
mut(R,[(S,'            env=os.environ,\n            check','            env=env,\n            check'),(S,'        subprocess.run(\n            [system','        env = os.environ\n        env["CAPUT_JOB"] = "1"\n        subprocess.run(\n            [system')],'env alias')
mut(R,[(A,'            # numcodecs.blosc.use_threads = False\n\n            if isinstance(f, str):','            numcodecs.blosc.use_threads = False\n\n            if isinstance(f, str):')],'blosc')
mut(R,[(RT,'            self._rng = random.MultithreadedRNG(','            np.random.seed(self.local_seed)\n            self._rng = random.MultithreadedRNG(')],'seed')
mut(R,[(RT,'            seed = np.random.SeedSequence().entropy','            seed = np.random.randint(2**31)')],'randint')
mut(R,[(AR,'            threads = int(os.environ.get("OMP_NUM_THREADS", 4))','            threads = int(os.environ.setdefault("OMP_NUM_THREADS", "4"))')],'env setdefault')
mut(R,[(PL,'        self._setup_logging(lint)\n','        self._setup_logging(lint)\n        from ..util import mpitools as _m\n        _m.enable_mpi_exception_handler()\n')],'switch')
mut(R,[(T,'            warnings.warn(\n                "Skyfield not','            warnings.simplefilter("once")\n            warnings.warn(\n                "Skyfield not')],'warnings')
mut(R,[(T,'import warnings\n','import warnings\n\nwarnings.filterwarnings("ignore")\n')],'warnings import')
mut(R,[(MT,'# Replace the standard exception handler\n    sys.excepthook = mpi_excepthook','# x\n    sys.excepthook = mpi_excepthook\n    sys.setrecursionlimit(10000)')],'recursion')
mut(R,[(SF,'                path = os.environ["CAPUT_SKYFIELD_PATH"]','                path = os.environ.pop("CAPUT_SKYFIELD_PATH")')],'env pop')
mut(R,[(CO,'class SafeLineLoader(SafeLoader):','SafeLoader.add_constructor("!x", None)\n\n\nclass SafeLineLoader(SafeLoader):')],'yaml')
mut(R,[(MT,'    sys.excepthook = mpi_excepthook\n','    sys.excepthook = mpi_excepthook\n    sys.__excepthook__ = mpi_excepthook\n')],'dunder hook')
mut(R,[(IO,'        import gc\n\n        gc.collect()\n','        import gc\n\n        gc.disable()\n        gc.collect()\n')],'gc disable')
RC='caput/pipeline/runner/_core.py'
mut(R,[(RC,'    if mpi_abort:\n        from ...util import mpitools\n\n        mpitools.enable','    from ...util import mpitools\n\n    if True:\n        mpitools.enable')],'always abort')
hd('refactors')
mut(R,[(RC,'    if mpi_abort:\n        from ...util import mpitools\n\n        mpitools.enable_mpi_exception_handler()\n','    _abort(mpi_abort)\n'),(RC,'def run_pipeline(','def _abort(on):\n    if not on:\n        return\n    from ...util import mpitools\n\n    mpitools.enable_mpi_exception_handler()\n\n\ndef run_pipeline(')],'helper abort')
mut(R,[(I,E,'        state = dict(divide="ignore", invalid="ignore", over="ignore")\n        with np.errstate(**state):\n            return np.where(x == 0, 0.0, 1.0 / x)\n')],'errstate kwargs')
mut(R,[(I,E,'        old = np.seterr(divide="ignore", invalid="ignore", over="ignore")\n        try:\n            return np.where(x == 0, 0.0, 1.0 / x)\n        finally:\n            np.seterr(**old)\n')],'finally')
mut(R,[(S,'            env=os.environ,\n            check','            env=dict(os.environ),\n            check')],'env copy')
mut(R,[(MT,'    # Replace the standard exception handler\n    sys.excepthook = mpi_excepthook','    _install(mpi_excepthook)\n\n\ndef _install(hook):\n    sys.excepthook = hook')],'helper install')
mut(R,[(RT,'            seed = np.random.SeedSequence().entropy','            seq = np.random.SeedSequence()\n            seed = seq.entropy')],'seedseq')
mut(R,[(AR,'            threads = int(os.environ.get("OMP_NUM_THREADS", 4))','            env = os.environ\n            threads = int(env.get("OMP_NUM_THREADS", 4))')],'env read')
mut(R,[(T,'            warnings.warn(\n                "Skyfield not','            with warnings.catch_warnings():\n                warnings.simplefilter("ignore")\n            warnings.warn(\n                "Skyfield not')],'catch')
done()
