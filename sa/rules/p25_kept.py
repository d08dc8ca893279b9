"""P25: what is kept from one call to serve later ones fits those later calls.

A kept value is one that a routine stores outside itself (on the object, its class, a module variable or table, a default
argument object) only when it is not there yet, or what a caching decorator keeps.  Its dependences are sliced backwards
to parameters and attributes; each must be part of the key or fixed for as long as the value is kept.
"""

import ast

from ..core import ClassInfo, FuncInfo, Repo, dotted, enclosing_class, outer_method, walk_scope
from ..report import Result

CACHES = {"lru_cache", "cache", "cached", "memoize", "cached_property", "singledispatch_cache"}
FAITHFUL = {"tuple", "str", "repr", "bytes", "tobytes", "float", "bool", "list"}


# Judged by hand.
BY_HAND = {
    # the name under which a class holds this very descriptor: found through an object, the same for all of them
    ("caput.config.Property._set_propname", "propname"),
}


def loc_of(t, w):
    """Persistent location a target stands for: (kind, owner, name, key expression or None)."""
    key = None
    if isinstance(t, ast.Subscript):
        base, key = t.value, t.slice
    else:
        base = t
    if isinstance(base, ast.Attribute):
        o = base.value
        if isinstance(o, ast.Name) and o.id == w.me:
            return ("class" if w.f.is_classmethod else "object", base.attr, key)
        d = dotted(o)
        if d in (f"{w.me}.__class__", "cls") or isinstance(o, ast.Call) and dotted(o.func) == "type":
            return ("class", base.attr, key)
        if d:
            r = w.repo.resolve_expr(o, w.f.module, w.f)
            if isinstance(r, ClassInfo):
                return ("class", base.attr, key)
        return None
    if isinstance(base, ast.Name):
        n = base.id
        if n in w.globals_declared or (key is not None and n not in w.locals and n in w.module_names):
            return ("module", n, key)
        if n in w.nonlocals:
            return ("closure", n, key)
        if key is not None and n in w.mutable_defaults:
            return ("default", n, key)
        if key is not None and n in w.alias:
            return loc_of_alias(w, n, key)
    return None


def loc_of_alias(w, n, key):
    v = w.alias[n]
    l = loc_of(v, w)
    return (l[0], l[1], key) if l and l[2] is None else None


class W:
    def __init__(self, R, f):
        self.R, self.repo, self.f = R, R.repo, f
        ps = f.all_params()
        m = outer_method(f)
        self.me = None
        if m is not None and m.is_method and not m.is_static and m.params():
            self.me = m.params()[0]
        self.params = [p for p in ps if p != self.me]
        self.globals_declared, self.nonlocals = set(), set()
        self.defs = {}
        self.locals = set(ps)
        for n in walk_scope(f.node):
            if isinstance(n, ast.Global):
                self.globals_declared |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
        for n in walk_scope(f.node):
            for t, v in bindings(n):
                for x in names(t):
                    if x not in self.globals_declared | self.nonlocals:
                        self.defs.setdefault(x, []).append(v)
                        self.locals.add(x)
        self.module_names = R.module_names(f.module)
        a = f.node.args
        pos = a.posonlyargs + a.args
        self.mutable_defaults = {
            p.arg
            for p, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *zip(a.kwonlyargs, a.kw_defaults)]
            if isinstance(d, (ast.Dict, ast.List)) or isinstance(d, ast.Call) and dotted(d.func) in ("dict", "list", "OrderedDict", "WeakKeyDictionary")
        }
        self.alias = {}
        for n, vs in self.defs.items():
            if len(vs) == 1 and isinstance(vs[0], ast.Attribute):
                self.alias[n] = vs[0]

    # -- kept values -----------------------------------------------------------------------
    def stores(self):
        out = []
        for n in walk_scope(self.f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    for x in ts:
                        out.append((x, n.value, n))
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                out.append((n.target, n.value, n))
            elif isinstance(n, ast.NamedExpr):
                out.append((n.target, n.value, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and len(n.args) == 2:
                out.append((ast.Subscript(value=n.func.value, slice=n.args[0], ctx=ast.Store()), n.args[1], n))
            elif isinstance(n, ast.Call) and dotted(n.func) == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                out.append((ast.Attribute(value=n.args[0], attr=n.args[1].value, ctx=ast.Store()), n.args[2], n))
        return out

    def tested(self, loc):
        """Nodes that ask whether the location already holds something; a keyed test gives its key."""
        kind, name, key = loc
        hits = []
        for n in walk_scope(self.f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                for x in ast.walk(n.test):
                    if self.presence(x, loc):
                        hits.append(n)
                        break
            elif isinstance(n, ast.Try) and any(h.type is None or {"AttributeError", "KeyError", "LookupError", "Exception", "NameError"} & set(typenames(h.type)) for h in n.handlers):
                for x in n.body:
                    if any(self.same(y, loc) for y in ast.walk(x) if isinstance(y, (ast.Attribute, ast.Name, ast.Subscript)) and isinstance(y.ctx, ast.Load)):
                        hits.append(n)
                        break
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and self.same(ast.Subscript(value=n.func.value, slice=ast.Constant(0), ctx=ast.Load()), loc):
                hits.append(n)
            elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and self.same(n.values[0], loc):
                hits.append(n)
        return hits

    def same(self, x, loc):
        if isinstance(x, ast.Subscript) and loc[2] is None:
            return False
        if isinstance(x, ast.Name) and loc[2] is None and loc[0] in ("module", "default") and x.id == loc[1]:
            return True
        if isinstance(x, ast.Name) and x.id in self.alias and loc[2] is None:
            x = self.alias[x.id]
        l = loc_of(x, self)
        kinds = ("object", "class")  # (what a class holds is found through its objects too)
        return l is not None and l[1] == loc[1] and (l[0] == loc[0] or l[0] in kinds and loc[0] in kinds) and (l[2] is None) == (loc[2] is None)

    def presence(self, x, loc):
        kind, name, key = loc
        whole = (kind, name, None)
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            if isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                return self.same(x.left, loc) or self.via_get(x.left, loc)
            if isinstance(x.ops[0], (ast.In, ast.NotIn)):
                return key is not None and self.same(x.comparators[0], whole) or isinstance(x.left, ast.Constant) and x.left.value == name
        if isinstance(x, ast.Call):
            d = dotted(x.func)
            if d == "hasattr" and len(x.args) == 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value == name:
                return True
            return self.via_get(x, loc)
        if isinstance(x, (ast.Attribute, ast.Name, ast.Subscript)) and isinstance(x.ctx, ast.Load):
            return self.same(x, whole)
        return False

    def via_get(self, x, loc):
        if isinstance(x, ast.Name) and len(self.defs.get(x.id, [])) >= 1:
            return any(self.via_get(v, loc) for v in self.defs[x.id] if not isinstance(v, ast.Name))
        if isinstance(x, ast.NamedExpr):
            return self.via_get(x.value, loc) or self.same(x.value, loc)
        if isinstance(x, ast.Call):
            if dotted(x.func) == "getattr" and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant):
                return x.args[1].value == loc[1]
            if isinstance(x.func, ast.Attribute) and x.func.attr == "get":
                return loc[2] is not None and self.same(x.func.value, (loc[0], loc[1], None))
        if isinstance(x, (ast.Attribute, ast.Subscript)):
            return self.same(x, loc)
        return False

    # -- dependences ------------------------------------------------------------------------
    def deps(self, e, seen=None, nodes=None):
        """Parameters ("param", p), attributes of the object ("attr", a) an expression is computed from."""
        seen = set() if seen is None else seen
        out = set()
        if e is None:
            return out
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in self.defs and x.id not in seen:
                    seen.add(x.id)
                    for v in self.defs[x.id]:
                        out |= self.deps(v, seen)
                    out |= self.changed_by(x.id, seen)
                if x.id in self.params:
                    out.add(("param", x.id))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.me and isinstance(x.ctx, ast.Load):
                out |= self.R.attr_deps(outer_method(self.f), x.attr, seen)
            elif isinstance(x, ast.Name) and x.id == self.me:
                pass
        return out

    def changed_by(self, name, seen):
        """Values stored into a local object by item, attribute, in-place operators or filling calls."""
        out = set()
        for n in walk_scope(self.f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    b = t
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if b is not t and isinstance(b, ast.Name) and b.id == name:
                        out |= self.deps(n.value, seen)
            elif isinstance(n, ast.AugAssign):
                b = n.target
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name:
                    out |= self.deps(n.value, seen)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.func.attr in ("append", "extend", "add", "update", "insert", "setdefault", "fill"):
                for a in n.args:
                    out |= self.deps(a, seen)
        return out

    def control(self, stmt, tests, seen):
        """What decides, inside the filling block, which value is stored."""
        out = set()
        path = self.R.parents(self.f, stmt)
        stop = {id(t) for t in tests}
        for p in path:
            if id(p) in stop:
                continue
            if isinstance(p, (ast.If, ast.While)):
                out |= self.deps(p.test, seen)
            elif isinstance(p, ast.For):
                out |= self.deps(p.iter, seen)
        # other branches that select between definitions used
        return out

    def choice_deps(self, e, tests, seen=None):
        """Branches that decide which definition of a local used in the value applies."""
        seen = set() if seen is None else seen
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in self.defs and x.id not in seen:
                seen.add(x.id)
                for n in walk_scope(self.f.node):
                    if any(x.id in names(t) for t, _ in bindings(n)):
                        out |= self.control(n, tests, set())
                for v in self.defs[x.id]:
                    if v is not None:
                        out |= self.choice_deps(v, tests, seen)
        return out

    def keyed(self, key):
        """Parameters and attributes that a key determines completely."""
        out = set()
        if key is None:
            return out
        def go(k, seen):
            if isinstance(k, (ast.Tuple, ast.List)):
                for x in k.elts:
                    go(x, seen)
            elif isinstance(k, ast.Name):
                if k.id in self.params:
                    out.add(("param", k.id))
                elif k.id in self.defs and k.id not in seen:
                    for v in self.defs[k.id]:
                        if v is not None:
                            go(v, seen | {k.id})
            elif isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == self.me:
                out.add(("attr", k.attr))
                out.update(self.R.attr_deps(outer_method(self.f), k.attr, set()))
            elif isinstance(k, ast.Call):
                n = k.func.attr if isinstance(k.func, ast.Attribute) else dotted(k.func)
                if n in FAITHFUL:
                    for x in k.args:
                        go(x, seen)
                    if isinstance(k.func, ast.Attribute):
                        go(k.func.value, seen)
                if n == "id":
                    for x in k.args:
                        if isinstance(x, ast.Name) and x.id == self.me:
                            out.add(("self", ""))
            elif isinstance(k, ast.JoinedStr):
                for x in k.values:
                    if isinstance(x, ast.FormattedValue):
                        go(x.value, seen)
            elif isinstance(k, ast.FormattedValue):
                go(k.value, seen)
            elif isinstance(k, ast.Starred):
                go(k.value, seen)
            if isinstance(k, ast.Name) and k.id == self.me:
                out.add(("self", ""))
        go(key, frozenset())
        return out


def typenames(t):
    return [(dotted(x) or "").split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]


def names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in names(x)]
    if isinstance(t, ast.Starred):
        return names(t.value)
    return []


def bindings(n):
    if isinstance(n, ast.Assign):
        return [(t, n.value) for t in n.targets]
    if isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
        return [(n.target, n.value)]
    if isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
        return [(n.target, n.iter)]
    if isinstance(n, (ast.With, ast.AsyncWith)):
        return [(i.optional_vars, i.context_expr) for i in n.items if i.optional_vars is not None]
    return []


class R:
    def __init__(self, repo):
        self.repo = repo
        self._mn, self._par, self._ad, self._wr = {}, {}, {}, {}

    def module_names(self, m):
        if m not in self._mn:
            self._mn[m] = {x for st in m.tree.body for t, _ in bindings(st) for x in names(t)}
        return self._mn[m]

    def parents(self, f, node):
        k = f
        if k not in self._par:
            t = {}
            for p in ast.walk(f.node):
                for c in ast.iter_child_nodes(p):
                    t[id(c)] = p
            self._par[k] = t
        t, out = self._par[k], []
        p = t.get(id(node))
        while p is not None and p is not f.node:
            out.append(p)
            p = t.get(id(p))
        return out

    # -- what an attribute of an object stands for ---------------------------------------------
    def attr_deps(self, m, attr, seen):
        """Stored attributes that reading this attribute (a property or method included) depends on."""
        c = enclosing_class(m) if m is not None else None
        if c is None:
            return {("attr", attr)}
        g = c.lookup(attr)
        if isinstance(g, FuncInfo):
            key = (g, "deps")
            if key in self._ad:
                return self._ad[key]
            self._ad[key] = set()
            out = set()
            me = g.params()[0] if g.is_method and not g.is_static and g.params() else None
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                    out |= self.attr_deps(g, x.attr, seen)
            self._ad[key] = out
            return out
        return {("attr", attr)}

    def changeable(self, c, attr, loc, g0):
        """Why an attribute of an object may change while the value is kept, or None."""
        if attr == loc[1]:
            return None
        prop = (c.lookup_attr(attr) or (None,))[0]
        if isinstance(prop, ast.Call):
            r = self.repo.resolve_expr(prop.func, c.module, None) if dotted(prop.func) else None
            desc = isinstance(r, ClassInfo) and r.lookup("__set__") is not None or isinstance(r, FuncInfo) and r.module.name.endswith(".config")
            if desc and not self.configured_once(c):
                return "is an option that can be set at any time"
        for k in [c, *c.all_subclasses(), *[x for x in c.mro() if isinstance(x, ClassInfo)]]:
            for g in [*k.methods.values(), *k.setters.values()]:
                if g.name in ("__init__", "__new__", "__array_finalize__", "__setstate__", "setup", "_setup", "__enter__", "__init_subclass__") or g is g0:
                    continue
                me = g.params()[0] if g.is_method and g.params() else None
                wrote = resets = False
                for n in walk_scope(g.node):
                    for t, _ in bindings(n):
                        for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                                wrote = wrote or x.attr == attr
                                resets = resets or x.attr == loc[1]
                    if isinstance(n, ast.Delete):
                        resets = resets or any(isinstance(x, ast.Attribute) and x.attr == loc[1] for x in n.targets)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clear", "pop") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == loc[1]:
                        resets = True
                if wrote and not resets and not self.is_memo(g, attr):
                    return f"is changed by {k.name}.{g.name}"
        return None

    def is_memo(self, g, attr):
        """The write itself only fills in a value that was not there yet."""
        w = W(self, g)
        loc = ("object", attr, None)
        return bool(w.tested(loc))

    def configured_once(self, c):
        """Objects that take their options from a configuration before they are used."""
        return any(isinstance(k, ClassInfo) and "read_config" in k.methods or k == "caput.config.Reader" for k in c.mro())

    def analyse(self, f, res):
        w = W(self, f)
        n = 0
        for t, v, node in w.stores():
            loc = loc_of(t, w)
            if loc is None:
                continue
            tests = w.tested(loc)
            if not tests or isinstance(v, ast.Constant) or isinstance(v, ast.Name) and v.id in w.params:
                continue  # (a bare argument is remembered as such, nothing is derived from it)
            if (f.qualname, loc[1]) in BY_HAND:
                continue
            if not self.guards(w, tests, node, loc):
                continue
            n += 1
            self.judge(w, loc, v, node, tests, res)
        for d in f.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if (dotted(x) or "").split(".")[-1] in CACHES:
                n += 1
                self.decorated(w, res)
        return n

    def guards(self, w, tests, node, loc):
        """The store happens only when the test found nothing (inside the block, or after an early exit)."""
        path = w.R.parents(w.f, node)
        for t in tests:
            if t is node or any(p is t for p in path) or any(x is node for x in ast.walk(t)):
                return True
            if isinstance(t, (ast.If, ast.Try)) and t.lineno < node.lineno:
                body = t.body if isinstance(t, ast.If) else t.body
                if any(isinstance(s, (ast.Return, ast.Raise)) for s in body) and any(
                    isinstance(s, ast.Return) and s.value is not None and any(w.same(y, loc) or w.via_get(y, loc) for y in ast.walk(s.value) if isinstance(y, ast.expr)) for s in body
                ):
                    return True
        return False

    def judge(self, w, loc, v, node, tests, res):
        kind, name, key = loc
        if kind == "object" and key is not None and self.class_table(w, name):
            kind = "class"
        deps = w.deps(v) | w.control(node, tests, set()) | w.choice_deps(v, tests)
        have = w.keyed(key)
        f = w.f
        where = {"object": "the object", "class": "the class", "module": "the module", "default": "a default argument", "closure": "the enclosing routine"}[kind]
        for d in sorted(deps):
            if d in have:
                continue
            if d[0] == "param":
                if d[1] in w.mutable_defaults:
                    continue
                res.add("kept-for-other-arguments", f.qualname, f"{name}|{d[1]}", f.loc(node),
                        f"the value kept in {name} of {where} was computed from the argument {d[1]} of the call that filled it, which is not part of the look-up")
            elif d[0] == "attr":
                c = enclosing_class(outer_method(f))
                if kind != "object":
                    if ("self", "") not in have:
                        res.add("kept-for-other-objects", f.qualname, f"{name}|{d[1]}", f.loc(node),
                                f"the value kept in {name} of {where} depends on {d[1]} of one object but serves all of them")
                    continue
                why = self.changeable(c, d[1], loc, f) if c is not None else None
                if why and not self.compared(w, tests, d[1]):
                    res.add("kept-when-outdated", f.qualname, f"{name}|{d[1]}", f.loc(node),
                            f"the value kept in {name} depends on {d[1]}, which {why} without the value being dropped")

    def class_table(self, w, name):
        """A table that was made once with the class and that no object has for itself."""
        c = enclosing_class(outer_method(w.f))
        at = c.lookup_attr(name) if c is not None else None
        if not at or not (isinstance(at[0], (ast.Dict, ast.List)) or isinstance(at[0], ast.Call) and dotted(at[0].func) in ("dict", "list", "OrderedDict")):
            return False
        for k in c.mro():
            if isinstance(k, ClassInfo):
                for g in k.methods.values():
                    for n in walk_scope(g.node):
                        for t, _ in bindings(n):
                            if any(isinstance(x, ast.Attribute) and x.attr == name for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])):
                                return False
        return True

    def compared(self, w, tests, attr):
        """The test for a kept value also compares the attribute with what was used then."""
        for t in tests:
            if isinstance(t, (ast.If, ast.IfExp, ast.While)):
                for x in ast.walk(t.test):
                    if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and ("attr", attr) in w.deps(x):
                        return True
        return False

    def decorated(self, w, res):
        f = w.f
        if not f.is_method or f.is_static:
            return
        c = enclosing_class(f)
        loc = ("object", f.name, None)
        for d in sorted(self.attr_deps(f, f.name, set())):
            why = self.changeable(c, d[1], loc, f)
            if why:
                res.add("kept-when-outdated", f.qualname, f"{f.name}|{d[1]}", f.loc(),
                        f"the cached result of {f.name} depends on {d[1]}, which {why}")


SRC = """
import functools
_table = {}


class A:
    _kept = None

    def __init__(self, n):
        self.n = n
        self.m = 0

    def get(self, x):
        if self._kept is None:
            self._kept = self.n * 2
        return self._kept + x

    def look(self, k):
        if (k, self.n) not in _table:
            _table[(k, self.n)] = k + self.n
        return _table[(k, self.n)]

    def move(self, m):
        self.m = m
"""


def selftest():
    def n(src):
        r = Repo(sources={"caput/__init__.py": "", "caput/x.py": src})
        res, R_ = Result(), R(r)
        for f in r.all_functions():
            R_.analyse(f, res)
        return len(res.findings)

    yield "clean", n(SRC) == 0
    yield "argument", n(SRC.replace("self._kept = self.n * 2", "self._kept = self.n * x")) > 0
    yield "key", n(SRC.replace("(k, self.n) not in", "k not in").replace("_table[(k, self.n)]", "_table[k]")) > 0
    yield "changing attribute", n(SRC.replace("self._kept = self.n * 2", "self._kept = self.m * 2")) > 0
    yield "class", n(SRC.replace("self._kept = self.n * 2", "A._kept = self.n * 2").replace("if self._kept", "if A._kept")) > 0
    yield "decorator", n(SRC.replace("    def get(self, x):\n        if self._kept is None:\n            self._kept = self.n * 2\n        return self._kept + x", "    @functools.lru_cache\n    def get(self, x):\n        return self.m + x")) > 0


def run(repo: Repo, tier="quick"):
    res = Result()
    r = R(repo)
    n = k = 0
    for f in repo.all_functions():
        n += 1
        k += r.analyse(f, res)
    res.stats = {"routines": n, "kept_values": k}
    res.floors = {"routines": 600, "kept_values": 6}
    res.explanation = (
        "Every conditional store to a location that outlives the call (attribute of the object or class, module variable, closure, default argument object, table entry) and every caching "
        "decorator was sliced backwards, through local definitions, branches, helpers and properties, to arguments and attributes; each of these must be determined by the look-up key, or "
        "belong to the holder of the value and not change while it is held."
    )
    return res
