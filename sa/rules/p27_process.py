"""P27: using the library leaves the settings of the whole process as they were.

Every operation of the package that changes something shared by the whole process (working directory, environment, signal handlers,
warning filters, numpy's error handling, global random generators, module search path, attributes of other libraries ...) is
found by resolving the names used.  It must be undone on every path out of the region that needs it (a context manager, or a
`finally`), or belong to a routine whose documented purpose is to change that setting, and those are called only by the command-line program.
"""

import ast
import sys

from ..core import ClassInfo, FuncInfo, Module, Repo, dotted
from ..report import Result

SETTERS = {
    "os.chdir": "the working directory", "os.fchdir": "the working directory", "os.umask": "the file mode mask", "os.putenv": "the environment", "os.unsetenv": "the environment",
    "os.nice": "the priority", "os.setpgrp": "the process group", "os.setsid": "the session", "os.setpriority": "the priority", "os.sched_setaffinity": "the CPU affinity",
    "signal.signal": "a signal handler", "signal.alarm": "the alarm timer", "signal.setitimer": "the alarm timer", "signal.pthread_sigmask": "the signal mask", "signal.siginterrupt": "signal handling",
    "warnings.simplefilter": "the warning filters", "warnings.filterwarnings": "the warning filters", "warnings.resetwarnings": "the warning filters",
    "numpy.seterr": "numpy's error handling", "numpy.seterrcall": "numpy's error handling", "numpy.set_printoptions": "numpy's print options", "numpy.setbufsize": "numpy's buffer size",
    "locale.setlocale": "the locale", "sys.setrecursionlimit": "the recursion limit", "sys.settrace": "the trace function", "sys.setprofile": "the profile function",
    "sys.setswitchinterval": "thread switching", "threading.settrace": "the trace function", "threading.setprofile": "the profile function", "threading.stack_size": "the thread stack size",
    "socket.setdefaulttimeout": "the default timeout", "multiprocessing.set_start_method": "the process start method", "resource.setrlimit": "a resource limit",
    "gc.disable": "garbage collection", "gc.enable": "garbage collection", "gc.set_threshold": "garbage collection", "gc.freeze": "garbage collection",
    "faulthandler.enable": "fault reporting", "faulthandler.disable": "fault reporting", "site.addsitedir": "the module search path",
    "logging.basicConfig": "the root logger", "logging.disable": "logging", "logging.captureWarnings": "the reporting of warnings", "logging.setLoggerClass": "logging",
    "logging.addLevelName": "logging", "logging.config.dictConfig": "logging", "logging.config.fileConfig": "logging", "logging.setLogRecordFactory": "logging",
    "decimal.setcontext": "the decimal context", "numcodecs.blosc.set_nthreads": "the compressor's threads", "numcodecs.blosc.init": "the compressor", "numcodecs.blosc.destroy": "the compressor",
    "pyfftw.interfaces.cache.enable": "the FFT cache", "pyfftw.forget_wisdom": "the FFT plans", "threadpoolctl.threadpool_limits": "thread limits", "time.tzset": "the time zone",
    "random.seed": "the global random generator", "random.setstate": "the global random generator", "numpy.random.seed": "the global random generator", "numpy.random.set_state": "the global random generator",
    "yaml.add_constructor": "the YAML loaders", "yaml.add_representer": "the YAML dumpers", "yaml.add_implicit_resolver": "the YAML loaders", "yaml.add_multi_constructor": "the YAML loaders",
    "atexit.unregister": "the exit handlers", "builtins.setattr": None,
}
SETTERS = {k: v for k, v in SETTERS.items() if v}
WHOLE = {k for k in SETTERS}
# objects of the process with methods that change them
OBJECTS = {
    "os.environ": ("the environment", {"update", "pop", "setdefault", "clear", "popitem", "__setitem__", "__delitem__"}),
    "sys.path": ("the module search path", {"insert", "append", "extend", "remove", "pop", "clear", "sort", "reverse"}),
    "sys.modules": ("the loaded modules", {"pop", "update", "clear", "setdefault", "popitem"}),
    "sys.meta_path": ("the import system", {"insert", "append", "extend", "remove", "pop"}),
    "sys.argv": ("the command line", {"insert", "append", "extend", "remove", "pop", "clear"}),
    "warnings.filters": ("the warning filters", {"insert", "append", "extend", "remove", "pop", "clear"}),
    "yaml.SafeLoader": ("the YAML loaders", {"add_constructor", "add_implicit_resolver", "add_multi_constructor", "add_path_resolver"}),
    "yaml.loader.SafeLoader": ("the YAML loaders", {"add_constructor", "add_implicit_resolver", "add_multi_constructor", "add_path_resolver"}),
    "yaml.Loader": ("the YAML loaders", {"add_constructor", "add_implicit_resolver"}),
    "yaml.FullLoader": ("the YAML loaders", {"add_constructor", "add_implicit_resolver"}),
}
# the generator shared by the whole process: drawing from it changes what the caller draws next
LEGACY = {
    "rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "choice", "shuffle", "permutation", "bytes", "normal", "uniform", "standard_normal", "exponential", "poisson", "binomial",
    "beta", "gamma", "chisquare", "multivariate_normal", "lognormal", "laplace", "standard_exponential", "standard_gamma", "random_integers", "vonmises", "multinomial", "triangular", "get_state",
}
STDRANDOM = {"random", "randint", "choice", "choices", "shuffle", "sample", "uniform", "gauss", "normalvariate", "randrange", "getrandbits", "randbytes", "betavariate", "expovariate"}
# what the documentation says is changed for the whole process: (module, what, the setting)
PURPOSE = {
    ("caput.util.mpitools", "sys.excepthook"): "enable_mpi_exception_handler installs the handler",
    ("caput.util.mpitools", "faulthandler.enable"): "enable_mpi_exception_handler turns on fault reports",
    ("caput.pipeline.runner._core", "logging.basicConfig"): "the command-line program",
    ("caput.pipeline.runner._scheduler", "logging.basicConfig"): "the command-line program",
    ("caput.pipeline.runner._core", "sys.path"): "the command-line program activates a virtual environment",
    ("caput.pipeline.runner._core", "site.addsitedir"): "the command-line program activates a virtual environment",
    ("caput.pipeline.runner._core", "sys.prefix"): "the command-line program activates a virtual environment",
    ("caput.pipeline.runner._core", "sys.real_prefix"): "the command-line program activates a virtual environment",
    ("caput.pipeline.tasklib.base", "logging.captureWarnings"): "the task SetMPILogging configures logging",
}
# routines that change a setting on request: only the command-line program may request it by itself
SWITCHES = {"enable_mpi_exception_handler"}
SWITCH_CALLERS = ("caput.pipeline.runner",)
LOGGER = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}
EXT_HEADS = set(sys.stdlib_module_names) | {"numpy", "scipy", "h5py", "zarr", "numcodecs", "yaml", "mpi4py", "psutil", "pyfftw", "skyfield", "click", "cachetools", "hdf5plugin", "bitshuffle", "toml", "tomllib"}
SWITCHABLE = {"numpy.random.get_state"}


def _aliases(repo, m, f):
    """Local names that stand for an object or module of the process."""
    out = {}
    if f is None:
        return out
    stores = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stores.get(n.targets[0].id) == 1 and dotted(n.value):
            if n.targets[0].id in f.all_params() or _local(n.value, f):
                continue
            r = repo.resolve_expr(n.value, m, f)
            if isinstance(r, str) and (r in OBJECTS or r in SETTERS or r in ("numpy.random", "random")) and "." in r:
                out[n.targets[0].id] = r
    return out


class _Resolve:
    def __init__(self, repo):
        self.repo, self.memo = repo, {}
        self.local_imports = repo.local_imports

    def resolve_expr(self, node, m, f):
        d = dotted(node)
        if f is not None and d:
            if f not in self.memo:
                self.memo[f] = _aliases(self.repo, m, f)
            head, *rest = d.split(".")
            if head in self.memo[f]:
                return ".".join([self.memo[f][head], *rest])
        return self.repo.resolve_expr(node, m, f)


def ops(repo, m, fn_of):
    repo = _Resolve(repo)
    yield from _ops(repo, m, fn_of)


def _ops(repo, m, fn_of):
    """(node, what, description, kind) for every operation of the module that changes the process."""
    for n in ast.walk(m.tree):
        f = fn_of.get(n)
        if isinstance(n, ast.Call):
            r = repo.resolve_expr(n.func, m, f) if dotted(n.func) else None
            if isinstance(r, str):
                if r in SETTERS and not _only_reads(r, n):
                    yield n, r, SETTERS[r], "set"
                head, _, last = r.rpartition(".")
                if head in OBJECTS and last in OBJECTS[head][1]:
                    yield n, head, OBJECTS[head][0], "set"
                if head == "numpy.random" and last in LEGACY - {"get_state"} or head == "random" and last in STDRANDOM and _is_std_random(repo, m, f, n.func):
                    yield n, r, "the global random generator", "draw"
            if r == "setattr" or isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
                t = repo.resolve_expr(n.args[0], m, f) if n.args and dotted(n.args[0]) else None
                if _external(t) and not _local(n.args[0], f):
                    what = f"{t}.{n.args[1].value}" if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else f"{t}.*"
                    yield n, what, f"an attribute of {t}", "set"
            # the root logger, whoever holds it
            if isinstance(n.func, ast.Attribute) and n.func.attr in LOGGER and isinstance(n.func.value, ast.Call):
                g = repo.resolve_expr(n.func.value.func, m, f) if dotted(n.func.value.func) else None
                if g == "logging.getLogger" and (not n.func.value.args or isinstance(n.func.value.args[0], ast.Constant) and n.func.value.args[0].value in ("", "root", None)):
                    yield n, "logging.getLogger()", "the root logger", "set"
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in [y for x in ts for y in (x.elts if isinstance(x, ast.Tuple) else [x])]:
                base = t
                if isinstance(t, ast.Subscript):
                    base = t.value
                    r = repo.resolve_expr(base, m, f) if dotted(base) else None
                    if r in OBJECTS and not (r == "sys.modules" and isinstance(t.slice, ast.Name) and t.slice.id == "__name__"):
                        yield n, r, OBJECTS[r][0], "set"
                elif isinstance(t, ast.Attribute) and dotted(t):
                    r = repo.resolve_expr(t.value, m, f)
                    if _external(r) and not _local(t.value, f):
                        yield n, f"{r}.{t.attr}", f"{r}.{t.attr}", "set"


def _only_reads(r, n):
    return r == "threading.stack_size" and not n.args or r == "locale.setlocale" and len(n.args) + len(n.keywords) < 2 or r == "faulthandler.enable" and False


def _is_std_random(repo, m, f, func):
    d = dotted(func)
    if d is None:
        return False
    head = d.split(".")[0]
    li = repo.local_imports(f) if f is not None else {}
    imp = li.get(head) or m.imports.get(head)
    return imp is not None and imp[1].split(".")[0] == "random"


def _external(r):
    return isinstance(r, str) and r.split(".")[0] in EXT_HEADS


def _local(e, f):
    """Is the head of the chain a variable of the function, not the module of that name?"""
    d = dotted(e)
    if d is None:
        return True
    head = d.split(".")[0]
    if head in ("self", "cls"):
        return True
    while f is not None:
        if head in f.all_params() or any(isinstance(x, ast.Name) and x.id == head and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            return True
        f = f.parent
    return False


def undone(repo, m, n, what, f, fn_of, all_ops):
    """Is the change undone on every path: inside `catch_warnings`, or followed by a `finally` that sets it again?"""
    p, prev = repo.parents.get(n), n
    stmt = n
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module, ast.AsyncFunctionDef)):
        if isinstance(p, ast.With):
            for it in p.items:
                d = it.context_expr.func if isinstance(it.context_expr, ast.Call) else it.context_expr
                r = repo.resolve_expr(d, m, f) if dotted(d) else None
                if r == "warnings.catch_warnings" and what.startswith("warnings.") and prev in p.body:
                    return True
                if r in ("numpy.errstate",) and what.startswith("numpy.seterr") and prev in p.body:
                    return True
                if r in ("numpy.printoptions",) and what == "numpy.set_printoptions" and prev in p.body:
                    return True
                if r == "unittest.mock.patch.dict" and what == "os.environ" and prev in p.body:
                    return True
        if isinstance(p, ast.Try):
            if prev in p.body and _sets_again(p.finalbody, what, all_ops):
                return True
            if prev in p.finalbody:
                # this is the undoing
                return any(_inside(o, p.body) or _before(repo, o, p) for o, w, _, _ in all_ops if _same(w, what) and o is not n)
        prev = p
        p = repo.parents.get(p)
    # directly before the try that undoes it
    while stmt is not None and not isinstance(stmt, ast.stmt):
        stmt = repo.parents.get(stmt)
    par = repo.parents.get(stmt)
    for fld in ("body", "orelse", "finalbody"):
        seq = getattr(par, fld, None)
        if isinstance(seq, list) and stmt in seq:
            i = seq.index(stmt)
            for nx in seq[i + 1:]:
                if isinstance(nx, ast.Try):
                    return _sets_again(nx.finalbody, what, all_ops)
                if any(isinstance(x, (ast.Call, ast.Raise, ast.Return, ast.Subscript, ast.Yield)) and not _harmless(x, all_ops, what) for x in ast.walk(nx)):
                    return False
    return False


def _harmless(x, all_ops, what):
    return any(o is x or any(y is x for y in ast.walk(o)) for o, w, _, _ in all_ops)


def _same(a, b):
    if a == b:
        return True
    g = [{"os.chdir", "os.fchdir"}, {"gc.disable", "gc.enable"}, {"os.environ", "os.putenv", "os.unsetenv"}, {"faulthandler.enable", "faulthandler.disable"},
         {"warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "warnings.filters"}, {"numpy.random.seed", "numpy.random.set_state"}, {"random.seed", "random.setstate"}]
    return any(a in x and b in x for x in g)


def _inside(n, body):
    return any(x is n for s in body for x in ast.walk(s))


def _before(repo, n, tr):
    par = repo.parents.get(tr)
    for fld in ("body", "orelse", "finalbody"):
        seq = getattr(par, fld, None)
        if isinstance(seq, list) and tr in seq:
            return any(x is n for s in seq[: seq.index(tr)] for x in ast.walk(s))
    return False


def _sets_again(body, what, all_ops):
    return any(_same(w, what) and _inside(o, body) for o, w, _, _ in all_ops)


def run(repo: Repo, tier="quick"):
    res = Result(stats={"modules": 0, "names_resolved": 0, "process_changes": 0, "undone": 0, "documented": 0, "switch_calls": 0})
    for m in sorted(repo.modules.values(), key=lambda x: x.rel):
        if m.rel.endswith(".pyi") or "/tests/" in m.rel:
            continue
        res.stats["modules"] += 1
        fn_of = {}
        for f in repo.all_functions():
            if f.module is m:
                for n in ast.walk(f.node):
                    old = fn_of.get(n)
                    if old is None or f.node.lineno >= old.node.lineno and (f.node.end_lineno - f.node.lineno) <= (old.node.end_lineno - old.node.lineno):
                        fn_of[n] = f
        res.stats["names_resolved"] += sum(isinstance(n, (ast.Call, ast.Assign, ast.AugAssign, ast.Delete)) for n in ast.walk(m.tree))
        found = list(ops(repo, m, fn_of))
        for n, what, desc, kind in found:
            f = fn_of.get(n)
            where = f.qualname if f is not None else m.name
            loc = f"{m.rel}:{n.lineno}"
            res.stats["process_changes"] += 1
            if kind == "draw":
                if _restored_draw(repo, n, found):
                    res.stats["undone"] += 1
                    continue
                res.add("global-generator", where, what, loc, f"{what} draws from the generator shared by the whole process: the caller's own draws change, and processes that must agree do not")
                continue
            if (m.name, what) in PURPOSE:
                if what in ("sys.excepthook", "faulthandler.enable", "logging.captureWarnings", "sys.path", "site.addsitedir", "sys.prefix", "sys.real_prefix") and f is None:
                    res.add("changed-on-import", where, what, loc, f"importing the module changes {desc} for the whole process")
                    continue
                res.stats["documented"] += 1
                continue
            if undone(repo, m, n, what, f, fn_of, [o for o in found if fn_of.get(o[0]) is f]):
                res.stats["undone"] += 1
                continue
            res.add("changed-on-import" if f is None else "not-restored", where, what, loc, f"{what} changes {desc} for the whole process and does not put it back on every path")
        # switches are not thrown by the library itself
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and dotted(n.func) and dotted(n.func).split(".")[-1] in SWITCHES:
                res.stats["switch_calls"] += 1
                f = fn_of.get(n)
                if not m.name.startswith(SWITCH_CALLERS) or f is None or not _asked(repo, n, f):
                    res.add("switch-thrown", f.qualname if f else m.name, dotted(n.func), f"{m.rel}:{n.lineno}", "the library changes the exception handling of the whole process without being asked to")
    res.floors = {"modules": 30, "names_resolved": 3000, "process_changes": 4}
    res.explanation = (
        "Every call, assignment and deletion of the package is resolved; those that change something shared by the whole process (working directory, environment, signal handlers, warning filters, numpy settings, "
        "random generators, logging of others, search path, attributes of other libraries) must be undone on every path by a context manager or `finally`, or belong to a routine documented to change that setting."
    )
    res.assumptions = ["third-party routines change only the settings their own interface is for", "log levels of named loggers are set as configured by the user"]
    return res


def _asked(repo, n, f):
    """Does the call depend on a test of what the caller passed?"""
    ps = set(f.all_params())
    while f.parent is not None:
        f = f.parent
        ps |= set(f.all_params())
    # names computed from the parameters
    for _ in range(3):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in ps for y in ast.walk(x.value)):
                ps |= {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
    has = lambda t: any(isinstance(y, ast.Name) and y.id in ps for y in ast.walk(t))
    p, prev = repo.parents.get(n), n
    while p is not None and prev is not f.node:
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and prev is not p.test and has(p.test):
            return True
        if isinstance(p, ast.BoolOp) and prev is not p.values[0] and has(p.values[0]):
            return True
        for fld in ("body", "orelse", "finalbody"):
            seq = getattr(p, fld, None)
            if isinstance(seq, list) and prev in seq:
                for q in seq[: seq.index(prev)]:
                    if isinstance(q, ast.If) and has(q.test) and any(isinstance(y, (ast.Return, ast.Raise, ast.Continue)) for y in ast.walk(q)):
                        return True
        prev, p = p, repo.parents.get(p)
    return False


def _restored_draw(repo, n, found):
    p, prev = repo.parents.get(n), n
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
        if isinstance(p, ast.Try) and prev in p.body and any(w in ("numpy.random.set_state", "random.setstate") and _inside(o, p.finalbody) for o, w, _, _ in found):
            return True
        prev, p = p, repo.parents.get(p)
    return False


_H = "import os, sys, warnings, signal, gc, random\nimport numpy as np\n"
POS = {
    "chdir": "def f(d):\n    os.chdir(d)\n    go()\n",
    "chdir2": "def f(d):\n    old = os.getcwd()\n    os.chdir(d)\n    go()\n    os.chdir(old)\n",
    "env": "def f():\n    os.environ['OMP_NUM_THREADS'] = '1'\n    return g()\n",
    "env2": "def f(e):\n    os.environ.update(e)\n",
    "warn": "def f():\n    warnings.simplefilter('ignore')\n    return 1\n",
    "err": "def f(x):\n    np.seterr(all='ignore')\n    return 1 / x\n",
    "err2": "def f(x):\n    old = np.seterr(all='ignore')\n    y = 1 / g(x)\n    np.seterr(**old)\n    return y\n",
    "seed": "def f(s):\n    np.random.seed(s)\n    return np.random.normal()\n",
    "draw": "def f(n):\n    return np.random.permutation(n)\n",
    "std": "def f(n):\n    return random.choice(n)\n",
    "sig": "def f(h):\n    signal.signal(signal.SIGTERM, h)\n",
    "imp": "np.seterr(all='ignore')\n",
    "attr": "import numcodecs\ndef f():\n    numcodecs.blosc.use_threads = False\n    return 1\n",
    "path": "def f(p):\n    sys.path.insert(0, p)\n",
    "late": "def f(d):\n    old = os.getcwd()\n    os.chdir(d)\n    x = g()\n    try:\n        h(x)\n    finally:\n        os.chdir(old)\n",
    "hook": "from caput.util import mpitools\ndef f():\n    mpitools.enable_mpi_exception_handler()\n",
    "alias": "def f():\n    env = os.environ\n    env['A'] = '1'\n    return g(env=env)\n",
    "alias2": "def f():\n    rnd = np.random\n    return rnd.normal()\n",
    "gen": "import contextlib\n@contextlib.contextmanager\ndef f(d):\n    old = os.getcwd()\n    os.chdir(d)\n    yield\n    os.chdir(old)\n",
    "gc": "def f():\n    gc.disable()\n    g()\n    gc.enable()\n",
    "yaml": "from yaml.loader import SafeLoader\ndef f(g):\n    SafeLoader.add_constructor('x', g)\n",
}
NEG = {
    "chdir": "def f(d):\n    old = os.getcwd()\n    os.chdir(d)\n    try:\n        go()\n    finally:\n        os.chdir(old)\n",
    "chdir2": "def f(d):\n    old = os.getcwd()\n    try:\n        os.chdir(d)\n        go()\n    finally:\n        os.chdir(old)\n",
    "warn": "def f():\n    with warnings.catch_warnings():\n        warnings.simplefilter('ignore')\n        return 1\n",
    "err": "def f(x):\n    with np.errstate(all='ignore'):\n        return 1 / x\n",
    "err2": "def f(x):\n    old = np.seterr(all='ignore')\n    try:\n        return 1 / x\n    finally:\n        np.seterr(**old)\n",
    "rng": "def f(s):\n    return np.random.default_rng(s).normal(), np.random.SeedSequence().entropy, random.Random(1)\n",
    "env": "def f():\n    e = dict(os.environ, A='1')\n    e['B'] = '2'\n    return e, os.environ.get('X')\n",
    "gen": "import contextlib\n@contextlib.contextmanager\ndef f(d):\n    old = os.getcwd()\n    os.chdir(d)\n    try:\n        yield\n    finally:\n        os.chdir(old)\n",
    "alias": "def f():\n    env = os.environ.copy()\n    env['A'] = '1'\n    return g(env=env)\n",
    "own": "class A:\n    def f(self):\n        self.random = 1\n        self.x.y = 2\n",
    "local": "def f(h5py, sys):\n    h5py.x = 1\n    sys.path.append(1)\n" if False else "def f(np_):\n    np_.x = 1\n",
    "std": "from numpy import random as r\ndef f(n):\n    return r.default_rng().choice(n)\n",
    "gc": "def f():\n    gc.collect()\n",
}


def selftest():
    out = []
    for k, src in POS.items():
        out.append((f"pos {k}", bool(run(Repo(sources={"caput/x.py": _H + src})).findings)))
    for k, src in NEG.items():
        r = run(Repo(sources={"caput/x.py": _H + src})).findings
        out.append((f"neg {k} {[x.key for x in r]}", not r))
    return out
