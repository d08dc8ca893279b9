"""P23: routines leave the objects of their callers, and shared defaults, unchanged."""

import ast

from .. import cy
from ..core import ClassInfo, Repo
from ..effects import Effects
from ..report import Result

# Arguments a routine exists to fill or change: (function, position among the caller's arguments) and general names.
DEST_NAMES = {"out", "dest", "dst", "destination"}
DEST = {
    ("caput.mpiarray.MPIArray.to_hdf5", 0): "the file to write",
    ("caput.mpiarray.MPIArray.to_zarr", 0): "the file to write",
    ("caput.mpiarray.MPIArray.to_file", 0): "the file to write",
    ("caput.memdata._memh5.copyattrs", 1): "the attributes to fill",
    ("caput.memdata._memh5.deep_group_copy", 1): "the group to fill",
    ("caput.util.mpitools.gather_local", 0): "the array to fill",
    ("caput.astro.coordinates._spherical.norm_vec2", 0): "documented to work in place",
    ("caput.util.truncate.bit_truncate_weights", 0): "documented to work in place",
    ("caput.util.truncate.bit_truncate_relative", 0): "documented to work in place",
    ("caput.util.truncate.bit_truncate_max_complex", 0): "documented to work in place",
    ("caput.pipeline.tasklib.io.Truncate.process", 0): "documented to work in place",
}
# Attributes that hold what the user configured, for all tasks of a pipeline: nothing may change them after they are read.
SETTINGS = {("Manager", "all_params"), ("Manager", "all_tasks_params"), ("Manager", "task_specs")}
REGISTRIES = {"register_system"}


def public(f):
    if f.parent is not None or f.name.startswith("_") and f.name not in ("__init__", "__new__", "__call__"):
        return False
    return f.cls is None or not f.cls.name.startswith("_")


def mutable_default(f, p):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *[(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]]:
        if x.arg == p:
            return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set")
    return False


def run(repo, tier="quick"):
    res = Result(stats={"functions": 0, "public_routines": 0, "arguments": 0, "in_place_changes": 0, "stored_arguments": 0})
    repo = cy.with_compiled(repo)
    eff = Effects(repo)
    fs = [f for f in repo.all_functions() if not f.module.rel.endswith(".pyi") and f.parent is None]
    changed_by = {}
    for f in fs:
        s = eff.summary(f)
        ps = f.bound_params()
        own = f.all_params()[:1] if f.is_method and not f.is_static else []
        pub = public(f)
        res.stats["functions"] += 1
        if pub:
            res.stats["public_routines"] += 1
            res.stats["arguments"] += len(ps)
        for root, (what, node, via) in s.writes.items():
            kind, name = root
            if kind == "p":
                if name in own:
                    continue
                loc = f.loc(node)
                if mutable_default(f, name):
                    res.add("shared-default-changed", f.qualname, name, loc, f"{f.short()} changes its argument '{name}', whose default object is shared between calls ({what})")
                    continue
                i = ps.index(name) if name in ps else -1
                if not pub or name in DEST_NAMES or (f.qualname, i) in DEST:
                    continue
                res.add("argument-changed", f.qualname, name, loc, f"{f.short()} changes the object passed as '{name}' ({what})" + (f", in {via}" if via else ""))
            elif kind == "s":
                if f.cls is not None and via is None and any((c.name, name) in SETTINGS for c in f.cls.mro() if isinstance(c, ClassInfo)):
                    res.add("settings-changed", f.qualname, name, f.loc(node), f"{f.short()} changes '{name}', the configuration shared by all tasks ({what})")
            elif kind == "c" and via is None:
                if f.is_classmethod and f.name.startswith(("register", "_register")) or f.name in ("__init_subclass__",):
                    continue
                res.add("class-state-changed", f.qualname, name, f.loc(node), f"{f.short()} changes an object shared by all instances of the class ({what})")
            elif kind == "g" and via is None and f.name not in REGISTRIES:
                res.add("module-state-changed", f.qualname, name, f.loc(node), f"{f.short()} changes the module-level object {name} ({what})")
    # an argument kept by the object without a copy and changed later by a method
    for m in repo.modules.values():
        if m.rel.endswith(".pyi"):
            continue
        for c in m.classes.values():
            if c.name.startswith("_"):
                continue
            kept, wrote = {}, {}
            for k in reversed([x for x in c.mro() if isinstance(x, ClassInfo)]):
                for g in k.methods.values():
                    s = eff.summary(g)
                    own = g.all_params()[:1]
                    for a, v in s.attrs.items():
                        for r in v[0]:
                            if r[0] == "p" and r[1] not in own and not g.name.startswith("_from") and (g.name == "__init__" or not g.name.startswith("_")):
                                kept.setdefault(a, (g, r[1]))
                                res.stats["stored_arguments"] += k is c
                    for r, (what, node, via) in s.writes.items():
                        if r[0] == "s":
                            wrote.setdefault(r[1], (g, what, node))
            for a in sorted(set(kept) & set(wrote)):
                g, p = kept[a]
                h, what, node = wrote[a]
                if g.cls is not c and h.cls is not c:
                    continue
                res.add("kept-argument-changed", c.qualname, a, h.loc(node), f"{c.name} keeps the caller's '{p}' in '{a}' without copying it ({g.name}) and {h.name} changes it ({what})")
    res.stats["in_place_changes"] = eff.stores
    res.floors = {"functions": 400, "public_routines": 250, "arguments": 500, "in_place_changes": 300}
    res.explanation = (
        "Alias and mutation effects of every function, from summaries propagated through resolved calls: every in-place change (item or slice assignment, augmented assignment of a list or array, "
        "mutating method, output argument) is traced to the objects it may reach. A change that reaches an argument of a public routine, a shared default, a class-level or a module-level object is reported, "
        "unless that argument is one the routine exists to fill."
    )
    res.assumptions = ["methods called on objects of unknown class change that object only if they are the mutating methods of lists, dictionaries, sets and arrays", "rebinding an attribute of an argument is not a change of its contents"]
    return res


POS = {
    "list": "def f(files):\n    files.append(1)\n",
    "alias": "def f(files):\n    x = files if files else []\n    x[0] = 1\n",
    "item": "def f(d):\n    for k, v in d.items():\n        v['a'] = k\n",
    "shallow": "def f(d):\n    d = dict(d)\n    for v in d.values():\n        v['a'] = 1\n",
    "helper": "def _h(x):\n    x['a'] = 1\ndef f(d):\n    _h(d)\n",
    "array": "import numpy as np\ndef f(x):\n    x = np.asarray(x)\n    x -= 1\n    return x\n",
    "view": "import numpy as np\ndef f(x):\n    y = x.reshape(-1)\n    y[:] = 0\n",
    "annot": "import numpy as np\ndef f(x: float | np.ndarray):\n    x *= 2\n    return x\n",
    "default": "def _f(x=[]):\n    x.append(1)\n    return x\n",
    "cls": "class A:\n    spec = {}\n    def go(self, k):\n        self.spec[k] = 1\n",
    "clsdict": "class A:\n    spec = {}\n    def go(self, k):\n        s = type(self).__dict__.get('spec', {})\n        s[k] = 1\n",
    "kept": "class A:\n    def __init__(self, xs):\n        self.xs = xs\n    def go(self):\n        self.xs.append(1)\n",
    "out": "import numpy as np\ndef f(a, b):\n    np.add(a, b, out=a)\n    return a\n",
    "sort": "def f(a):\n    a.sort()\n    return a\n",
    "aug": "def f(a):\n    a += [1]\n    return a\n",
    "branch": "def f(a, c):\n    if c:\n        a = list(a)\n    a.append(1)\n    return a\n",
}
NEG = {
    "copy": "def f(files):\n    files = list(files)\n    files.append(1)\n    return files\n",
    "dict": "def f(d, **kw):\n    d = {**d}\n    d['a'] = 1\n    kw['b'] = 2\n    return d, kw\n",
    "num": "def f(n, s):\n    n += 1\n    s += 'x'\n    return n, s\n",
    "arr": "import numpy as np\ndef f(x):\n    x = np.array(x)\n    x -= 1\n    return x\n",
    "arr2": "import numpy as np\ndef f(x):\n    x = np.asarray(x) * 2\n    x -= 1\n    y = x.copy().reshape(-1)\n    y *= 2\n    return x\n",
    "own": "class A:\n    def __init__(self):\n        self.x = []\n    def go(self, v):\n        self.x.append(v)\n",
    "own2": "class A:\n    def __init__(self, x):\n        self.x = list(x)\n    def go(self, v):\n        self.x.append(v)\n",
    "out": "def f(a, out):\n    out[:] = a\n    return out\n",
    "helper": "def _h(x):\n    x['a'] = 1\n    return x\ndef f(d):\n    return _h(dict(d))\n",
    "slice": "def f(files):\n    \"\"\"X.\n\n    Parameters\n    ----------\n    files : list\n        a\n    \"\"\"\n    g = files[:]\n    g.append(1)\n    return g\n",
    "comp": "def f(ds):\n    out = [d.copy() for d in ds]\n    out.append(1)\n    return out\n",
}


def selftest():
    out = []
    for k, src in POS.items():
        out.append((f"pos {k}", bool(run(Repo(sources={"caput/x.py": src})).findings)))
    for k, src in NEG.items():
        r = run(Repo(sources={"caput/x.py": src})).findings
        out.append((f"neg {k} {[x.key for x in r]}", not r))
    return out
