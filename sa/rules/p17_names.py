"""P17: no path refers to something that does not exist when it is reached."""

import ast
import builtins
import os
import re
import symtable

from ..core import ClassInfo, Module, Repo, dotted, walk_scope
from ..flow import ANY_EXC, Budget, Client, Engine, alts
from ..report import Result

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__class__", "WindowsError"}
MODULE_ATTRS = {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__dict__", "__version__", "__all__"}
OBJECT_ATTRS = set(dir(object)) | set(dir(type)) | {"__dict__", "__weakref__", "__slots__", "__annotations__", "__qualname__", "__wrapped__"}


# -- A: definite assignment of local variables --------------------------------------------------


def locals_of(f):
    out, outer = set(), set()
    for n in walk_scope(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
    # comprehension variables are not locals of the function
    comp = set()
    for n in walk_scope(f.node):
        if isinstance(n, ast.comprehension):
            comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    own = set()
    for n in _stores_outside_comprehensions(f.node):
        own.add(n)
    return (out - (comp - own)) - outer


def _stores_outside_comprehensions(fn):
    def rec(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield ch.name
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, ast.comprehension):
                yield from rec(ch.iter)
                for i in ch.ifs:
                    yield from rec(i)
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                yield ch.id
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    yield (a.asname or a.name).split(".")[0]
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                yield ch.name
            yield from rec(ch)

    yield from rec(fn)


class Assigned(Client):
    max_states = 24

    def __init__(self, repo):
        self.repo = repo
        self.loc = {}
        self.found = {}
        self.reads = set()

    def initial(self, f):
        return None

    def inline(self, eng, callee, depth):
        return False

    def on_subscript(self, eng, st, b, i, t, e, out):
        out.exc.append((st, ANY_EXC))
        return None

    def on_load_name(self, eng, st, name, val, node):
        f = eng.func
        if f not in self.loc:
            self.loc[f] = locals_of(f)
        if name in self.loc[f] and name not in f.all_params():
            self.reads.add(id(node))
            bad = name not in st.env or any(x.k == "unbound" for x in alts(val))
            if bad and not self.retry_idiom(f, name, node):
                self.found.setdefault((f, name), node)
        return st

    def retry_idiom(self, f, name, node):
        """`for ..: try: name = use(name..) except: <uses name>`: bound by the previous turn or the entry."""
        n, handler, tr = node, None, None
        while n is not None and n is not f.node:
            p = self.repo.parents.get(n)
            if isinstance(n, ast.ExceptHandler):
                handler, tr = n, p
            if isinstance(n, (ast.For, ast.While)) and tr is not None:
                stores = [x for x in ast.walk(ast.Module(body=tr.body, type_ignores=[])) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                others = [
                    x
                    for x in ast.walk(ast.Module(body=n.body, type_ignores=[]))
                    if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) and x not in stores
                ]
                if stores and others:
                    return True
            n = p
        return False


# -- B: global names ----------------------------------------------------------------------------


class _Strip(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        n.returns = None
        a = n.args
        for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        self.generic_visit(n)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)


def top_names(m, runtime=True):
    """Names bound at module level (at run time: outside TYPE_CHECKING)."""
    out = set()

    def rec(body):
        for st in body:
            if isinstance(st, ast.If) and runtime and _type_checking(st.test):
                rec(st.orelse)
                continue
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(st.name)
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        if a.name != "*":
                            out.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)

    rec(m.tree.body)
    # `global x` inside functions
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    return out


def _type_checking(t):
    d = dotted(t)
    return d is not None and d.split(".")[-1] == "TYPE_CHECKING"


def star_names(repo, m, seen=None):
    seen = seen or set()
    out, known = set(), True
    for base in m.imports.get("*", []) or []:
        sm = repo.modules.get(base)
        if sm is None or sm.name in seen:
            known = known and sm is not None
            continue
        seen.add(sm.name)
        al = all_of(sm)
        if al is not None:
            out |= set(al)
        else:
            n, k = star_names(repo, sm, seen)
            out |= {x for x in top_names(sm) | n if not x.startswith("_")}
            known = known and k
    return out, known


def all_of(m):
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
            try:
                return list(ast.literal_eval(st.value))
            except ValueError:
                return None
    return None


def globals_used(m):
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
    tree = ast.parse(m.source)
    if future:
        tree = ast.fix_missing_locations(_Strip().visit(tree))
    # blocks under TYPE_CHECKING are not executed
    class Drop(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if _type_checking(n.test):
                return [ast.copy_location(ast.Expr(n.test), n), *n.orelse]
            return n

    tree = ast.fix_missing_locations(Drop().visit(tree))
    tab = symtable.symtable(ast.unparse(tree), m.rel, "exec")
    used = {}

    def rec(t, path):
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or (t.get_type() == "module")):
                used.setdefault(s.get_name(), set()).add(".".join(path) or "<module>")
        for ch in t.get_children():
            rec(ch, path + [ch.get_name()])

    rec(tab, [])
    return used


def line_of(m, name):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            return n.lineno
    return 0


# -- C: names taken from modules of the package ---------------------------------------------------


def compiled_names(repo):
    """Module name -> names defined by a Cython source."""
    out = {}
    base = os.path.join(repo.root, repo.pkg)
    if repo.sources is not None:
        return out
    for dp, _dn, fn in os.walk(base):
        for f in fn:
            if f.endswith(".pyx"):
                src = open(os.path.join(dp, f), encoding="utf8").read()
                names = set(re.findall(r"^(?:def|class|cdef class|cpdef class)\s+(\w+)", src, re.M))
                names |= set(re.findall(r"^cpdef\s+[^(=\n]*?(\w+)\s*\(", src, re.M))
                names |= set(re.findall(r"^(\w+)\s*=", src, re.M))
                names |= set(re.findall(r"^(?:c?import\s+(?:\S+\s+as\s+)?|from\s+\S+\s+c?import\s+)(\w+)", src, re.M))
                mod = os.path.relpath(os.path.join(dp, f), repo.root)[:-4].replace(os.sep, ".")
                out[mod] = names
    return out


def _replaces_itself(m):
    return any(
        isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and dotted(n.value) == "sys.modules" for n in ast.walk(m.tree)
    )


class Names:
    def __init__(self, repo):
        self.repo = repo
        self.pyx = compiled_names(repo)
        self.tops = {}

    def top(self, m):
        if m.name not in self.tops:
            n, known = star_names(self.repo, m)
            self.tops[m.name] = (top_names(m) | n, known)
        return self.tops[m.name]

    def has(self, modname, name):
        """Does module `modname` provide `name`?  None when unknown (not ours)."""
        if modname in self.pyx:
            return name in self.pyx[modname] or name in MODULE_ATTRS
        m = self.repo.modules.get(modname)
        if m is None:
            if modname == self.repo.pkg or modname.startswith(self.repo.pkg + "."):
                # a directory without sources, or generated (version file)
                return None if modname.split(".")[-1].startswith("_version") else False
            return None
        names, known = self.top(m)
        if name in names or name in MODULE_ATTRS or not known:
            return True
        if f"{modname}.{name}" in self.repo.modules or f"{modname}.{name}" in self.pyx:
            return True
        if "__getattr__" in names:
            return True
        if name[:1].isupper() and _replaces_itself(m):
            # the module object is a proxy that also offers the MPI constants and classes
            return True
        return False


# -- D: attributes of the object itself -----------------------------------------------------------


def attr_stores(cls):
    out = set(cls.methods) | set(cls.attrs) | set(cls.setters)
    dyn = False
    up = {ch: p for p in ast.walk(cls.node) for ch in ast.iter_child_nodes(p)}
    for st in cls.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.add(st.target.id)
        for n in ast.walk(st):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                elif isinstance(n.args[0], ast.Name):
                    dyn = True
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and not _only_read(up, n) and not _other_param(up, n.value):
                dyn = True
    for st in ast.walk(cls.node):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            out.add(st.name)
        if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
            out.add(st.id) if _in_class_body(cls, st) else None
    if "__getattr__" in cls.methods or "__getattribute__" in cls.methods:
        dyn = True
    return out, dyn


def _other_param(up, obj):
    """Is the object a parameter of the method other than the instance itself?"""
    p = up.get(obj)
    while p is not None and not isinstance(p, ast.FunctionDef):
        p = up.get(p)
    if p is None or not isinstance(obj, ast.Name):
        return False
    ps = [a.arg for a in [*p.args.posonlyargs, *p.args.args]]
    return obj.id in ps[1:] and isinstance(up.get(p), ast.ClassDef)


def _only_read(up, n):
    """Is this `x.__dict__` only looked into (a lookup, a membership test, a listing)?"""
    p = up.get(n)
    if isinstance(p, ast.Subscript) and p.value is n:
        return isinstance(p.ctx, ast.Load)
    if isinstance(p, ast.Compare):
        return n in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops)
    return isinstance(p, ast.Attribute) and p.attr in ("get", "items", "keys", "values", "copy")


def _in_class_body(cls, node):
    for st in cls.node.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if any(x is node for x in ast.walk(st)):
            return True
    return False


def family(cls):
    """Everything an instance seen as `cls` may be made of."""
    out = []
    for c in [cls, *cls.all_subclasses()]:
        for b in c.mro():
            if b not in out:
                out.append(b)
    return out


EXT_OK = {"object", "abc.ABC", "typing.Generic", "Generic", "ABC", "typing.Protocol", "Protocol"}


def ext_attrs(name):
    """Attributes of a builtin base class (from the interpreter's own type), else None."""
    n = name.split("[")[0]
    if n in EXT_OK:
        return set()
    last = n.split(".")[-1]
    t = getattr(builtins, last, None)
    if isinstance(t, type):
        return set(dir(t))
    import collections.abc

    t = getattr(collections.abc, last, None)
    if isinstance(t, type):
        return set(dir(t))
    if n not in _EXT:
        _EXT[n] = _known_type(n)
    return _EXT[n]


_EXT = {}


def _known_type(n):
    """Attributes of a class of the standard library or numpy: what its type has, and every name its own code mentions."""
    import importlib
    import sys

    mod, _, name = n.rpartition(".")
    if mod and mod.split(".")[0] not in sys.stdlib_module_names | {"numpy"}:
        return _from_source(mod, name)
    if not mod or mod.split(".")[0] not in sys.stdlib_module_names | {"numpy"}:
        return None
    try:
        t = getattr(importlib.import_module(mod), name)
    except Exception:
        return None
    if not isinstance(t, type):
        return None
    out = set(dir(t))
    for c in t.__mro__:
        for v in vars(c).values():
            code = getattr(v, "__code__", None)
            if code is not None:
                out |= set(code.co_names)
    return out


def _from_source(mod, name, seen=()):
    """Attributes of a class of an installed library, from that library's own source; None if it cannot be read."""
    import glob
    import os

    for base in glob.glob("/opt/venv/lib/python3*/site-packages"):
        for rel in (mod.replace(".", "/") + ".py", mod.replace(".", "/") + "/__init__.py"):
            path = os.path.join(base, rel)
            if not os.path.isfile(path):
                continue
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except Exception:
                return None
            for c in tree.body:
                if isinstance(c, ast.ClassDef) and c.name == name:
                    out = set()
                    for b in c.bases:
                        d = dotted(b)
                        if d == "object":
                            continue
                        more = _from_source(mod, d, (*seen, name)) if d and d not in seen and d != name else None
                        if more is None:
                            t = getattr(builtins, d or "", None)
                            more = set(dir(t)) if isinstance(t, type) else None
                        if more is None:
                            return None
                        out |= more
                    if c.keywords:
                        return None
                    for x in ast.walk(c):
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            if x.name in ("__getattr__", "__getattribute__"):
                                return None
                            out.add(x.name)
                        elif isinstance(x, ast.Attribute):
                            out.add(x.attr)
                        elif isinstance(x, ast.Name):
                            out.add(x.id)
                        elif isinstance(x, ast.alias):
                            out.add((x.asname or x.name).split(".")[0])
                    return out
            return None
    return None


def self_reads(repo, f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if not ps or f.is_static or f.cls is None or f.parent is not None:
        return
    me = ps[0]
    if any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
            yield n


_STORED = {}


def _stored_anywhere(repo):
    if id(repo) not in _STORED:
        _STORED.clear()
        out = set()
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        _STORED[id(repo)] = out
    return _STORED[id(repo)]


def guarded_attr(repo, f, node):
    """Is the read protected by hasattr / getattr default / except AttributeError?"""
    n = node
    while n is not None and n is not f.node:
        p = repo.parents.get(n)
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                d = "" if h.type is None else ast.unparse(h.type)
                if "AttributeError" in d:
                    # an absence that is provided for; one that nothing could ever end is not
                    return node.attr in _stored_anywhere(repo)
                if h.type is None or d == "Exception":
                    return True
        n = p
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and dotted(c.func) == "hasattr" and len(c.args) == 2:
            if isinstance(c.args[1], ast.Constant) and c.args[1].value == node.attr:
                return True
    return False


def run(repo: Repo, tier="quick"):
    res = Result()
    nm = Names(repo)
    # A
    reads = budget = 0
    funcs = 0
    for f in repo.all_functions():
        if f.is_overload:
            continue
        funcs += 1
        c = Assigned(repo)
        try:
            Engine(repo, c).run(f)
        except Budget:
            budget += 1
            continue
        reads += len(c.reads)
        for (g, name), node in c.found.items():
            res.add("possibly-unbound", g.qualname, name, g.loc(node), f"'{name}' is used here but some path reaches this point without assigning it")
    # B
    used = 0
    for m in repo.modules.values():
        names, known = nm.top(m)
        if not known:
            continue
        for name, where in globals_used(m).items():
            used += 1
            if name not in names and name not in BUILTINS and f"{m.name}.{name}" not in repo.modules:
                w = sorted(where)[0]
                why = "is imported for type checking only" if name in m.type_only else "is defined nowhere"
                res.add("undefined-name", f"{m.name}.{w}".replace(".<module>", ""), name, f"{m.rel}:{line_of(m, name)}", f"'{name}' is used at run time but {why}")
    # C
    mods = 0
    for m in repo.modules.values():
        al = all_of(m)
        for x in al or []:
            mods += 1
            if nm.has(m.name, x) is False:
                res.add("public-name-missing", m.name, x, f"{m.rel}:1", f"'{x}' is listed in __all__ but the module does not provide it")
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                table = {}
                repo._import(m, n, table)
                for k, v in table.items():
                    if k == "*" or v[0] != "obj":
                        continue
                    mods += 1
                    if nm.has(v[1], v[2]) is False and not _import_guarded(repo, n):
                        res.add("import-missing", m.name, f"{v[1]}.{v[2]}", f"{m.rel}:{n.lineno}", f"imports '{v[2]}' from {v[1]}, which does not provide it")
    for f in repo.all_functions():
        bound = locals_of(f) | set(f.all_params())
        p = f.parent
        while p is not None:
            bound |= locals_of(p) | set(p.all_params())
            p = p.parent
        li = repo.local_imports(f)
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            d = dotted(n.value)
            if d is None:
                continue
            head = d.split(".")[0]
            if head in bound and head not in li:
                continue
            r = repo.resolve_expr(n.value, f.module, f)
            if isinstance(r, Module):
                mods += 1
                if nm.has(r.name, n.attr) is False:
                    res.add("module-attribute-missing", f.qualname, f"{r.name}.{n.attr}", f.loc(n), f"'{n.attr}' is taken from {r.name}, which does not provide it")
            elif isinstance(r, str) and r in nm.pyx:
                mods += 1
                if nm.has(r, n.attr) is False:
                    res.add("module-attribute-missing", f.qualname, f"{r}.{n.attr}", f.loc(n), f"'{n.attr}' is taken from {r}, which does not provide it")
            elif isinstance(r, ClassInfo):
                if not _has_attr(r, n.attr, [r]):
                    res.add("class-attribute-missing", f.qualname, f"{r.name}.{n.attr}", f.loc(n), f"class {r.name} has no attribute '{n.attr}'")
                mods += 1
    # D
    own = 0
    for f in repo.all_functions():
        if f.cls is None:
            continue
        for n in self_reads(repo, f):
            own += 1
            if _has_attr(f.cls, n.attr, None) or guarded_attr(repo, f, n):
                continue
            res.add("own-attribute-missing", f.qualname, n.attr, f.loc(n), f"reads its own attribute '{n.attr}', which nothing in the class, its bases or subclasses defines")
    res.stats = {"functions": funcs, "local_reads": reads, "global_names": used, "module_names": mods, "own_attribute_reads": own, "budget_exceeded": budget}
    res.floors = {"functions": 300, "local_reads": 800, "global_names": 500, "own_attribute_reads": 500}
    res.explanation = (
        "Every read of a local variable on every path (including exceptional ones and zero-iteration loops), every module-level and builtin name, every "
        "name imported or taken from a module or class of the package, every public-list entry and every read of an object's own attribute is required to be bound."
    )
    res.assumptions = [
        "any call, subscript or import may raise",
        "a correlation between two conditions is used when they test the same unchanged value",
        "attributes of third-party objects are not checked",
    ]
    return res


_FAM = {}


def _has_attr(cls, attr, only):
    if attr in OBJECT_ATTRS:
        return True
    fam = family(cls) if only is None else [b for c in only for b in c.mro()]
    own = cls.mro()
    for b in fam:
        if isinstance(b, ClassInfo):
            k = b
            if k not in _FAM:
                _FAM[k] = attr_stores(k)
            names, dyn = _FAM[k]
            if attr in names or (dyn and b in own):
                return True
            if b in own and any(kw.arg == "metaclass" for kw in b.node.keywords):
                return True
        else:
            e = ext_attrs(str(b))
            # a base this analysis cannot see may provide anything; one that only a subclass has
            # cannot be what the class itself relies on
            if (e is None and b in own) or (e is not None and attr in e):
                return True
    return False


def _import_guarded(repo, n):
    p = n
    while p is not None:
        q = repo.parents.get(p)
        if isinstance(q, ast.Try) and p in q.body and any(h.type is None or "ImportError" in ast.unparse(h.type) for h in q.handlers):
            return True
        if isinstance(q, ast.If) and _type_checking(q.test):
            return True
        p = q
    return False


BAD = {
    "caput/__init__.py": "",
    "caput/a.py": '''
from __future__ import annotations
from typing import TYPE_CHECKING
from . import b
if TYPE_CHECKING:
    from .b import K
__all__ = ["f", "nope"]
def f(x):
    if x > 1:
        y = 2
    return y
def g(xs):
    for i in xs:
        pass
    return i
def h(x: K):
    return isinstance(x, K)
def k():
    return b.missing
class C:
    def m(self):
        return self.nothing
def e(x):
    try:
        v = x()
    except KeyError:
        pass
    return v
''',
    "caput/b.py": "class K:\n    pass\n",
}

GOOD = {
    "caput/__init__.py": "",
    "caput/a.py": '''
from __future__ import annotations
from . import b
__all__ = ["f"]
def f(x):
    if x > 1:
        y = 2
    else:
        raise ValueError
    return y
def g(xs):
    i = None
    for i in xs:
        pass
    return i
def h(x: K):
    from .b import K
    return isinstance(x, K)
class C:
    def __init__(self):
        self.nothing = 1
    def m(self):
        return self.nothing
def e(x):
    try:
        v = x()
    except KeyError:
        return 0
    return v
def corr(x):
    if x is not None:
        z = x()
    q = 3
    if x is not None:
        return z
    return q
''',
    "caput/b.py": "class K:\n    pass\n",
}


def selftest():
    bad = run(Repo(sources=BAD))
    keys = {f.key for f in bad.findings}
    for want in (
        "possibly-unbound|caput.a.f|y",
        "possibly-unbound|caput.a.g|i",
        "possibly-unbound|caput.a.e|v",
        "public-name-missing|caput.a|nope",
        "module-attribute-missing|caput.a.k|caput.b.missing",
        "own-attribute-missing|caput.a.C.m|nothing",
        "undefined-name|caput.a.h|K",
    ):
        yield want, want in keys
    good = run(Repo(sources=GOOD))
    yield "no false alarm: " + "; ".join(f.key for f in good.findings), not good.findings
