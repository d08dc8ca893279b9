"""P19: compiled loops that run without bounds checks stay inside their arrays."""

import ast

from .. import cy
from ..bounds import Interp, TooHard
from ..core import AnalysisError, Repo
from ..report import Result


def python_callers(repo, pyx):
    """Functions of Python modules that call a routine of a compiled module: [(FuncInfo, {local name: Fn})]."""
    out = []
    by_mod = {rel[:-4].replace("/", "."): p for rel, p in pyx.items()}
    for m in repo.modules.values():
        names = {}
        for nm, t in m.imports.items():
            if isinstance(t, tuple) and t[0] == "obj":
                p = by_mod.get(t[1])
                if p is not None and t[2] in p.fns:
                    names[nm] = p.fns[t[2]]
        if not names:
            continue
        for f in repo.functions.values():
            if f.module is not m or not isinstance(f.node, ast.FunctionDef):
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(f.node)):
                out.append((f, names))
    return out


def calls(fn):
    out = set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Subscript):
                f = f.value
            if isinstance(f, ast.Name):
                out.add(f.id)
    return out


def unchecked(fn):
    if fn.directives.get("boundscheck") is False:
        return True
    return any(isinstance(n, ast.With) and any("boundscheck(False)" in ast.unparse(i.context_expr) for i in n.items) for n in ast.walk(fn.node))


def run(repo, tier="quick"):
    res = Result()
    pyx = cy.load_all(repo)
    nsites = noutside = nfun = 0
    pcs = python_callers(repo, pyx)
    from_python = {id(fn) for f, names in pcs for fn in names.values()}
    for rel, p in sorted(pyx.items()):
        called = set()
        for fn in p.fns.values():
            called |= calls(fn) - {fn.name}
        entries = []
        for fn in p.fns.values():
            private = fn.name.startswith("_") or fn.kind == "cdef"
            if private and (fn.name in called or id(fn) in from_python):
                continue
            entries.append(("pyx", fn, dict(p.fns)))
        for f, names in pcs:
            if any(id(fn) in {id(x) for x in p.fns.values()} for fn in names.values()):
                a = f.node.args
                args = [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]]
                # routines of the same Python module are followed too
                fns = dict(p.fns)
                for g in repo.functions.values():
                    if g.module is f.module and isinstance(g.node, ast.FunctionDef) and g.qualname == f"{f.module.name}.{g.node.name}":
                        ga = g.node.args
                        fns.setdefault(g.node.name, cy.Fn(g.node.name, g.module.rel, g.node, [x.arg for x in [*ga.posonlyargs, *ga.args, *ga.kwonlyargs]], {}, "def"))
                fns.update(names)
                entries.append(("py", cy.Fn(f.node.name, f.module.rel, f.node, args, {}, "def"), fns))
        reach = set()
        for kind, fn, fns in entries:
            it = Interp(fns)
            try:
                it.run(fn)
            except TooHard as e:
                raise AnalysisError(f"{rel}: {fn.name}: {e}") from e
            reach.add(fn.name)
            for (file, name, line, text), (ok, why, chain) in sorted(it.sites.items()):
                nsites += 1
                reach.add(name)
                if not ok:
                    res.add("out-of-bounds", f"{file}:{name}", text, f"{file}:{line}",
                            f"unchecked access {text}: {why} (reached through {' -> '.join(chain)})")
            noutside += len(it.outside)
        for fn in p.fns.values():
            if unchecked(fn):
                nfun += 1
    res.stats = {"compiled_files": len(pyx), "unchecked_functions": nfun, "accesses_decided": nsites, "accesses_outside": noutside}
    if repo.sources is None:
        res.floors = {"compiled_files": 4, "unchecked_functions": 12, "accesses_decided": 60}
    res.explanation = (
        "Every indexed access to a typed view, buffer or C array in code compiled without bounds checks is shown to lie inside the axis, for all shapes "
        "and arguments that the entry routines let through: the compiled routines and their Python callers are interpreted over linear inequalities "
        "between sizes and counters, calls followed in place"
    )
    res.assumptions = [
        "sizes fit the C integer types used for them",
        "counters moved by a loop that stops on the data (the partition scan of the selection routine) are outside",
        "the generated C and the C++ tree are outside",
    ]
    return res


BAD = {
    "caput/__init__.py": "",
    "caput/w.py": "import numpy as np\nfrom .k import _inv\ndef inv(x, out=None):\n    if out is None:\n        out = np.empty_like(x)\n    _inv(x.ravel(), out.ravel())\n    return out\n",
    "caput/k.pyx": """
cimport cython
from cython.parallel import prange
@cython.boundscheck(False)
@cython.wraparound(False)
cpdef _inv(double[:] a, double[:] b):
    cdef Py_ssize_t i, n = a.shape[0]
    for i in prange(n, nogil=True):
        b[i] = a[i]
@cython.boundscheck(False)
@cython.wraparound(False)
def nxt(double[:] a):
    cdef Py_ssize_t i
    for i in range(a.shape[0]):
        a[i] = a[i + 1]
""",
}
GOOD = {
    "caput/__init__.py": "",
    "caput/w.py": "import numpy as np\nfrom .k import _inv\ndef inv(x, out=None):\n    if out is None:\n        out = np.empty_like(x)\n    elif x.shape != out.shape:\n        raise ValueError\n    _inv(x.ravel(), out.ravel())\n    return out\n",
    "caput/k.pyx": """
cimport cython
from cython.parallel import prange
@cython.boundscheck(False)
@cython.wraparound(False)
cpdef _inv(double[:] a, double[:] b):
    cdef Py_ssize_t i, n = a.shape[0]
    for i in prange(n, nogil=True):
        b[i] = a[i]
@cython.boundscheck(False)
@cython.wraparound(False)
def nxt(double[:] a):
    cdef Py_ssize_t i, k = 0
    for i in range(a.shape[0] - 1):
        a[k] = a[i + 1]
        k += 1
""",
}


def _repo(src):
    r = Repo(sources={k: v for k, v in src.items() if k.endswith(".py")})
    r.sources = src
    return r


def selftest():
    for name, src, want in (("bad", BAD, 2), ("good", GOOD, 0)):
        got = run(_repo(src)).findings
        yield f"{name}: " + "; ".join(x.key for x in got), len(got) == want
