"""Alias and mutation effects of functions: which caller-visible objects a routine may change.

Forward, flow-sensitive abstract interpretation over the syntax tree. The abstract value of an expression is a pair
(direct, inner) of sets of roots: `direct` - the value may be (part of) the object that root names, `inner` - the value is
something new that may hold parts of that object. Roots are parameters, class-level attributes and module-level names.
Functions of the repository are summarised (parameters changed, what the result may alias) and the summaries applied at
resolved calls, so that moving code into a helper does not change the result.
"""

from __future__ import annotations

import ast

from .core import ClassInfo, FuncInfo, dotted, enclosing_class, walk_scope

E = frozenset()
NONE = (E, E)

MUTATORS = {
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "appendleft", "popleft", "extendleft",
    "difference_update", "intersection_update", "symmetric_difference_update", "fill", "resize", "put", "itemset", "setflags", "partition", "setfield", "byteswap_inplace",
    "move_to_end", "__setitem__", "__delitem__", "rotate",
}
ITEM = {"get", "setdefault", "pop", "popitem", "popleft", "__getitem__", "item_view"}
VIEW = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal", "__enter__", "__iter__"}
HOLD = {"values", "items", "keys", "copy", "most_common", "split", "union", "difference", "intersection", "tolist", "__copy__"}
# library (numpy and builtin) functions by last name: (kind) of the result with respect to the first argument
F_SAME = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ascontiguousarray", "asfortranarray", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "moveaxis", "rollaxis",
          "broadcast_to", "expand_dims", "real", "imag", "cast", "require", "MappingProxyType", "iter", "nditer", "view_as", "ensure_list"}
F_HOLD = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "chain", "OrderedDict", "defaultdict", "deque", "ChainMap", "islice", "filter", "copy", "fromkeys", "from_iterable", "vars"}
F_ITEM = {"next", "getattr", "max", "min", "reduce"}
# external functions that write into one of their arguments: last dotted name -> positions
F_WRITES = {"shuffle": (0,), "copyto": (0,), "place": (0,), "putmask": (0,), "put": (0,), "put_along_axis": (0,), "fill_diagonal": (0,), "heapify": (0,), "heappush": (0,), "heappop": (0,),
            "insort": (0,), "insort_left": (0,), "insort_right": (0,), "at": (0,), "update_wrapper": ()}
DEEP = {"deepcopy", "array"}
IMMUTABLE_ANN = {"int", "float", "str", "bool", "bytes", "complex", "None", "tuple", "slice", "type", "Callable", "PathLike", "Path", "Literal", "dtype", "DTypeLike", "Path", "frozenset"}


def join(a, b):
    return a if a == b else (a[0] | b[0], a[1] | b[1])


def both(v):
    return v[0] | v[1]


class Summary:
    __slots__ = ("writes", "ret", "attrs")

    def __init__(self):
        self.writes = {}  # param -> (node text, loc, via)
        self.ret = NONE
        self.attrs = {}


class Effects:
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.decl = {}
        self.functions = 0
        self.stores = 0

    # -- summaries -------------------------------------------------------------------------
    def summary(self, f):
        s = self.memo.get(f)
        if s is None:
            s = self.memo[f] = Summary()
            for _ in range(4):
                w = Walker(self, f)
                w.run()
                n = Summary()
                n.writes, n.ret, n.attrs = w.writes, w.ret, w.self_attrs
                same = set(n.writes) == set(s.writes) and n.ret == s.ret
                # keep the object: recursive users hold it
                s.writes, s.ret, s.attrs = n.writes, n.ret, n.attrs
                if same:
                    break
            self.functions += 1
        return s

    def declared(self, f):
        """Parameter types from the docstring."""
        d = self.decl.get(f)
        if d is None:
            d = {}
            doc = ast.get_docstring(f.node) or ""
            for ln in doc.splitlines():
                head, sep, rest = ln.partition(" : ")
                if sep and not head.startswith("    ") and head.strip():
                    names = {w for w in "".join(ch if ch.isalnum() or ch == "_" else " " for ch in rest).split()} - {"optional", "or", "default"}
                    for p in head.split(","):
                        p = p.strip().lstrip("*\\")
                        if p in f.all_params():
                            d[p] = {"list" if w in ("List", "lists") else w for w in names}
            self.decl[f] = d
        return d

    def callee(self, f, call):
        """(function, bound receiver expression or None, is_constructor)"""
        fn = call.func
        g = self.repo.resolve_expr(fn, f.module, f)
        if isinstance(g, ClassInfo):
            i = g.lookup("__new__") or g.lookup("__init__")
            return (i, None, True) if isinstance(i, FuncInfo) else (None, None, True)
        if isinstance(g, FuncInfo):
            return g, None, False
        if isinstance(fn, ast.Attribute):
            v = fn.value
            c = enclosing_class(f)
            if isinstance(v, ast.Name) and c is not None and f.all_params()[:1] == [v.id] and not f.is_static:
                g = c.lookup(fn.attr)
                if isinstance(g, FuncInfo):
                    return g, v, False
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
                g = c.lookup_after(c, fn.attr)
                if isinstance(g, FuncInfo):
                    return g, v, False
            if isinstance(v, ast.Name) and v.id in ("cls", "self") and c is not None:
                g = c.lookup(fn.attr)
                if isinstance(g, FuncInfo):
                    return g, v, False
        return None, None, False


def annotation_names(node):
    out = set()
    if node is None:
        return out
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                out |= annotation_names(ast.parse(n.value, mode="eval"))
            except SyntaxError:
                pass
    return out


class Walker:
    """One pass over a function body."""

    def __init__(self, eff, f, env=None, outer=None):
        self.eff, self.f, self.repo = eff, f, eff.repo
        self.outer = outer
        self.writes = {} if outer is None else outer.writes
        self.self_attrs = {} if outer is None else outer.self_attrs
        self.ret = NONE
        a = f.node.args
        ps = f.all_params()
        self.env = dict(env or {})
        self.own = ps[0] if ps and f.cls is not None and f.parent is None and not f.is_static else (outer.own if outer else None)
        self.ann = {x.arg: annotation_names(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs}
        for p, names in eff.declared(f).items():
            self.ann[p] = self.ann.get(p) or names
        if outer is not None:
            self.ann = {**outer.ann, **self.ann}
        for p in ps:
            self.env[p] = NONE if self.immutable(self.ann.get(p)) else (frozenset({("p", p)}), E)
        # *args and **kwargs are containers made for this call; what they hold is the caller's
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = (E, frozenset({("p", x.arg)}))
        if outer is not None:
            for p in ps:
                self.env[p] = NONE
        self.kinds = {}
        self.loops = []

    @staticmethod
    def immutable(ann):
        return bool(ann) and ann <= IMMUTABLE_ANN | {"os", "np", "npt", "numpy"}

    def run(self):
        self.block(self.f.node.body)

    # -- effects ---------------------------------------------------------------------------
    def write(self, v, node, what, via=None):
        self.eff.stores += 1
        for r in v[0]:
            if r not in self.writes:
                self.writes[r] = (what, node, via)

    # -- statements ------------------------------------------------------------------------
    def block(self, body):
        """Run statements; returns True when control can fall out of the block."""
        for st in body:
            if self.stmt(st) is False:
                return False
        return True

    def branch(self, *bodies):
        """Run alternatives from the same environment and join what falls through."""
        start = self.env
        outs = []
        for b in bodies:
            self.env = dict(start)
            if b is None or self.block(b):
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        self.env = self.merge(outs)
        return True

    @staticmethod
    def merge(envs):
        out = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items():
                out[k] = join(out[k], v) if k in out else v
        return out

    def stmt(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x)

    def s_Expr(self, n):
        self.ev(n.value)

    def s_Return(self, n):
        if n.value is not None:
            self.ret = join(self.ret, self.ev(n.value))
        return False

    def s_Raise(self, n):
        for x in (n.exc, n.cause):
            if x is not None:
                self.ev(x)
        return False

    def s_Break(self, n):
        if self.loops:
            self.loops[-1].append(dict(self.env))
        return False

    s_Continue = s_Break

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v, n.value, n)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value), n.value, n)

    def s_AugAssign(self, n):
        v = self.ev(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.env.get(t.id, NONE)
            if cur[0] and self.mutable(t.id, cur, n):
                self.write(cur, n, f"{ast.unparse(t)} {op(n.op)}= ...")
            # a list that is extended in place also holds the new parts
            self.env[t.id] = (cur[0], cur[1] | both(v)) if isinstance(n.op, (ast.Add, ast.BitOr)) else cur
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.write(b, n, f"{ast.unparse(t)} {op(n.op)}= ...")
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.attr_store(t, b, n)

    def mutable(self, name, cur, n):
        """Does `name op= value` change an object in place? Needs evidence that the object is mutable."""
        val = n.value
        if isinstance(val, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.DictComp)):
            return True
        if isinstance(val, ast.Call) and (dotted(val.func) or "").split(".")[-1] in ("list", "sorted", "set", "dict", "asarray", "array"):
            return True
        for _, p in [r for r in cur[0] if r[0] == "p"]:
            if name == p and self.arrayish(p):
                return True
        return bool(self.kinds.get(name))

    def evident(self, value):
        """The expression evidently gives a list, dictionary, set or array (rather than a number, string or tuple)."""
        if isinstance(value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
            return True
        if isinstance(value, ast.Subscript):
            return sliced(value.slice) and not (isinstance(value.value, ast.Name) and self.kinds.get(value.value.id) is None and not self.arrayish(value.value.id))
        if isinstance(value, ast.Call):
            n = (dotted(value.func) or "").split(".")[-1] or (value.func.attr if isinstance(value.func, ast.Attribute) else "")
            return n in F_SAME - {"cast", "iter", "real", "imag"} or n in VIEW - {"__enter__", "__iter__"} or n == "astype" or n in ("list", "sorted", "dict", "set")
        if isinstance(value, ast.Name):
            return bool(self.kinds.get(value.id)) or self.arrayish(value.id)
        if isinstance(value, ast.IfExp):
            return self.evident(value.body) or self.evident(value.orelse)
        if isinstance(value, ast.BoolOp):
            return any(self.evident(x) for x in value.values)
        return False

    def arrayish(self, p):
        return bool(self.ann.get(p, set()) & {"ndarray", "NDArray", "MPIArray", "list", "MutableSequence", "dict", "MutableMapping", "set", "ArrayLike", "array_like"})

    def s_For(self, n):
        self.loop(n, lambda: self.assign(n.target, self.item(self.ev(n.iter)), None, n))

    s_AsyncFor = s_For

    def s_While(self, n):
        self.loop(n, lambda: self.ev(n.test))

    def loop(self, n, head):
        self.loops.append([])
        for _ in range(3):
            before = dict(self.env)
            head()
            self.block(n.body)
            after = self.merge([before, self.env, *self.loops[-1]])
            if after == before:
                break
            self.env = after
        self.env = self.merge([self.env, *self.loops.pop()])
        if n.orelse:
            self.branch(n.orelse, None)

    def s_If(self, n):
        self.ev(n.test)
        return self.branch(n.body, n.orelse)

    def s_With(self, n):
        for it in n.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, None, n)
        return self.block(n.body)

    s_AsyncWith = s_With

    def s_Try(self, n):
        start = dict(self.env)
        fell = self.block(n.body)
        end = self.env
        mid = self.merge([start, end])
        outs = []
        if fell:
            self.env = dict(end)
            if self.block(n.orelse):
                outs.append(self.env)
        for h in n.handlers:
            self.env = dict(mid)
            if h.name:
                self.env[h.name] = NONE
            if self.block(h.body):
                outs.append(self.env)
        self.env = self.merge(outs) if outs else mid
        ok = self.block(n.finalbody)
        return bool(outs) and ok

    s_TryStar = s_Try

    def s_Match(self, n):
        v = self.ev(n.subject)
        for c in n.cases:
            for x in ast.walk(c.pattern):
                nm = getattr(x, "name", None) or getattr(x, "rest", None)
                if isinstance(nm, str):
                    self.env[nm] = self.item(v) if nm else NONE
        return self.branch(*[c.body for c in n.cases], None)

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                self.write(b, n, f"del {ast.unparse(t)}")
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def s_FunctionDef(self, n):
        g = next((x for x in self.f.module.all_funcs if x.node is n), None)
        if g is not None:
            w = Walker(self.eff, g, self.env, self)
            w.block(n.body)
            self.env[n.name] = NONE

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n):
        return None

    def s_Assert(self, n):
        self.ev(n.test)

    # -- stores ----------------------------------------------------------------------------
    def assign(self, t, v, value, node):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.kinds[t.id] = self.evident(value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in [*value.elts, *t.elts]) else None
            for i, x in enumerate(t.elts):
                if vals is not None:
                    self.assign(x, self.peek(vals[i]), vals[i], node)
                else:
                    it = self.item(v)
                    self.assign(x.value if isinstance(x, ast.Starred) else x, (E, both(it)) if isinstance(x, ast.Starred) else it, None, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.write(b, node, f"{ast.unparse(t)} = ...")
            if isinstance(t.value, ast.Name) and t.value.id in self.env and not sliced(t.slice):
                d, i = self.env[t.value.id]
                self.env[t.value.id] = (d, i | both(v))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.attr_store(t, b, node)
            if isinstance(t.value, ast.Name) and t.value.id == self.own:
                self.env["self." + t.attr] = v
                self.self_attrs[t.attr] = join(self.self_attrs.get(t.attr, NONE), v)

    def attr_store(self, t, b, node):
        # rebinding an attribute is configuration of an object, not a change of its data - except these, which write the data
        if t.attr in ("real", "imag", "flat", "shape", "dtype", "mask", "T", "strides"):
            self.write(b, node, f"{ast.unparse(t)} = ...")

    # -- expressions -----------------------------------------------------------------------
    def item(self, v):
        return (both(v), E)

    def peek(self, e):
        """Value of an expression already evaluated (for its effects) once."""
        keep = dict(self.writes)
        v = self.ev(e)
        self.writes.clear()
        self.writes.update(keep)
        return v

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return out

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if self.outer is None or True:
            g = self.f.module.globals.get(e.id)
            if g is not None and isinstance(e.ctx, ast.Load):
                return (frozenset({("g", f"{self.f.module.name}.{e.id}")}), E)
        return NONE

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == self.own:
            k = "self." + e.attr
            if k in self.env:
                return self.env[k]
            if e.attr == "__class__":
                return (frozenset({("c", "*")}), E)
            if self.f.is_classmethod or self.class_level(e.attr):
                return (frozenset({("c", e.attr)}), E)
            return (frozenset({("s", e.attr)}), E)
        v = self.ev(e.value)
        if e.attr == "__class__":
            return (frozenset({("c", "*")}), E) if self.own and isinstance(e.value, ast.Name) and e.value.id == self.own else NONE
        if isinstance(e.value, (ast.Name, ast.Attribute)) and not v[0]:
            g = self.repo.resolve_expr(e.value, self.f.module, self.f) if not (isinstance(e.value, ast.Name) and e.value.id in self.env) else None
            if isinstance(g, ClassInfo):
                return (frozenset({("c", e.attr)}), E)
        if e.attr in ("shape", "dtype", "ndim", "size", "name", "__name__", "__class__", "__doc__", "nbytes", "itemsize", "rank", "comm"):
            return NONE
        return self.item(v)

    def class_level(self, attr):
        """A mutable class attribute that instances share: defined in the class and never set on the instance."""
        c = enclosing_class(self.f)
        if c is None:
            return False
        val, owner = c.lookup_attr(attr)
        if not isinstance(val, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.Call)):
            return False
        if isinstance(val, ast.Call) and (dotted(val.func) or "").split(".")[-1] not in ("dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary", "deque"):
            # an option: its value is the default object of the declaration, or comes from the user's configuration
            g = self.repo.resolve_expr(val.func, owner.module, None) if owner is not None else None
            if not (getattr(g, "module", None) is not None and g.module.name.split(".")[-1] == "config"):
                return False
        for k in [x for x in c.mro() if isinstance(x, ClassInfo)]:
            for g in [*k.methods.values(), *k.setters.values()]:
                ps = g.all_params()
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and ps and x.value.id == ps[0]:
                        return False
        return True

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if sliced(e.slice):
            # part of an array is a view of it, part of a list is a new list
            lists = frozenset(r for r in v[0] if r[0] == "p" and self.listish(r[1])) if not isinstance(e.slice, ast.Tuple) else E
            return (v[0] - lists, v[1] | lists)
        return self.item(v)

    def listish(self, p):
        a = self.ann.get(p, set())
        return bool(a & {"list", "tuple", "Sequence", "Iterable", "MutableSequence", "str"}) and not a & {"ndarray", "NDArray", "MPIArray", "ArrayLike", "array_like", "MemDataset"}

    def e_Starred(self, e):
        return self.ev(e.value)

    def elements(self, xs):
        out = set()
        for x in xs:
            if x is not None:
                out |= both(self.ev(x))
        return (E, frozenset(out))

    def e_List(self, e):
        return self.elements(e.elts)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e):
        for k in e.keys:
            if k is not None:
                self.ev(k)
        return self.elements(e.values)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.Add, ast.BitOr, ast.Mult)):
            # list + list, dict | dict: a new container holding the same parts; for numbers and arrays nothing is shared,
            # but then no part of it can be changed through an item either
            return (E, both(a) | both(b))
        return NONE

    def e_BoolOp(self, e):
        out = NONE
        for x in e.values:
            out = join(out, self.ev(x))
        return out

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value, e)
        return v

    def e_Compare(self, e):
        for x in [e.left, *e.comparators]:
            self.ev(x)
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        if e.value is not None:
            v = self.ev(e.value)
            self.ret = join(self.ret, (E, both(v)))
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        self.ret = join(self.ret, (E, both(v)))
        return NONE

    def e_Lambda(self, e):
        save = dict(self.env)
        for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
            self.env[x.arg] = NONE
        self.ev(e.body)
        self.env = save
        return NONE

    def comp(self, e, *elts):
        save = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.item(self.ev(g.iter)), None, e)
            for c in g.ifs:
                self.ev(c)
        v = self.elements(elts)
        self.env = save
        return v

    def e_ListComp(self, e):
        return self.comp(e, e.elt)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, e.key, e.value)

    def e_Call(self, e):
        fn = e.func
        args = [self.ev(a) for a in e.args]
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kws[k.arg] = v
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else NONE
        # `out=` of array functions
        if "out" in kws and not isinstance(self.eff.callee(self.f, e)[0], FuncInfo):
            self.write(kws["out"], e, f"{ast.unparse(fn)}(out=...)")
        g, bound, ctor = self.eff.callee(self.f, e)
        if g is not None:
            return self.apply(e, g, bound, ctor, args, kws)
        if ctor:
            out = E
            for v in [*args, *kws.values()]:
                out |= both(v)
            return (E, out)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if isinstance(fn, ast.Name) and fn.id == "type" and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == self.own:
            return (frozenset({("c", "*")}), E)
        if isinstance(fn, ast.Name) and fn.id in self.env:
            return NONE
        full = self.repo.resolve_expr(fn, self.f.module, self.f)
        full = full if isinstance(full, str) else ""
        head = (dotted(fn) or "").split(".")[0]
        external = isinstance(fn, ast.Name) or head in self.f.module.imports or head in self.repo.local_imports(self.f) and head not in self.env
        if external:
            if name in F_WRITES:
                for p in F_WRITES[name]:
                    if p < len(args):
                        self.write(args[p], e, f"{name}({ast.unparse(e.args[p])}, ...)")
            if name in DEEP:
                if name == "array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in e.keywords):
                    return args[0] if args else NONE
                return NONE
            if name in F_SAME and args:
                return args[1] if name == "cast" and len(args) > 1 else args[0]
            if name in F_HOLD:
                out = E
                for v in [*args, *kws.values()]:
                    out |= both(v)
                return (E, out)
            if name in F_ITEM and args:
                return self.item(args[0])
            if name == "map":
                return (E, frozenset().union(*[both(a) for a in args[1:]]))
            return NONE
        # a method of some object
        if isinstance(fn, ast.Attribute):
            if name in MUTATORS:
                self.write(recv, e, f"{ast.unparse(fn)}(...)")
                held = E
                for v in [*args, *kws.values()]:
                    held |= both(v)
                if held and isinstance(fn.value, ast.Name) and fn.value.id in self.env:
                    d, i = self.env[fn.value.id]
                    self.env[fn.value.id] = (d, i | held)
            if name in ITEM:
                dflt = args[1] if len(args) > 1 and name in ("get", "setdefault", "pop") else NONE
                return join(self.item(recv), dflt)
            if name in VIEW:
                return recv
            if name == "astype":
                if any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                    return recv
                return NONE
            if name in HOLD:
                return (E, both(recv))
        return NONE

    def apply(self, e, g, bound, ctor, args, kws):
        s = self.eff.summary(g)
        ps = g.params()
        amap = {}
        if g.is_method and not g.is_static and ps:
            if ctor:
                ps = ps[1:]
            elif bound is not None:
                if isinstance(bound, ast.Name) and bound.id in self.env:
                    amap[ps[0]] = self.env[bound.id]
                ps = ps[1:]
            elif g.is_classmethod:
                ps = ps[1:]
        a = g.node.args
        pos = [x for x in ps if x not in {k.arg for k in a.kwonlyargs}]
        for i, v in enumerate(args):
            if isinstance(e.args[i], ast.Starred):
                for p in pos[i:]:
                    amap[p] = join(amap.get(p, NONE), self.item(v))
                if a.vararg:
                    amap[a.vararg.arg] = join(amap.get(a.vararg.arg, NONE), (both(v), E))
                break
            if i < len(pos):
                amap[pos[i]] = v
            elif a.vararg:
                amap[a.vararg.arg] = join(amap.get(a.vararg.arg, NONE), v)
        for k, v in kws.items():
            if k in ps:
                amap[k] = v
            elif a.kwarg:
                amap[a.kwarg.arg] = join(amap.get(a.kwarg.arg, NONE), v)
        same_self = bound is not None
        for r, (what, node, via) in s.writes.items():
            if r[0] == "p" and r[1] in amap:
                self.write(amap[r[1]], e, f"{ast.unparse(e.func)}(...): {what}")
            elif r[0] == "s" and same_self or r[0] in ("c", "g"):
                if r not in self.writes:
                    self.writes[r] = (what, node, via or g.qualname)
        if ctor and g.name == "__init__" and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" for x in ast.walk(g.node)):
            # the object holds what its initialiser stores in it
            out = E
            for v in s.attrs.values():
                for r in both(v):
                    if r[0] == "p" and r[1] in amap:
                        out |= both(amap[r[1]])
            return (E, out)
        if ctor and g.name == "__init__":
            out = E
            for v in amap.values():
                out |= both(v)
            return (E, out)

        def tr(rs):
            out = E
            for r in rs:
                if r[0] == "p":
                    out |= both(amap[r[1]]) if r[1] in amap else E
                elif r[0] == "g" or same_self:
                    out |= {r}
            return out

        def trd(rs):
            d = E
            i = E
            for r in rs:
                if r[0] == "p":
                    if r[1] in amap:
                        d |= amap[r[1]][0]
                        i |= amap[r[1]][1]
                elif r[0] == "g" or same_self:
                    d |= {r}
            return d, i

        d, i = trd(s.ret[0])
        return (d, i | tr(s.ret[1]))


def sliced(sl):
    return any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in ([sl] if not isinstance(sl, ast.Tuple) else sl.elts))


def op(o):
    return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "BitOr": "|", "BitAnd": "&", "Mod": "%", "FloorDiv": "//", "Pow": "**", "MatMult": "@", "BitXor": "^", "LShift": "<<", "RShift": ">>"}.get(type(o).__name__, "?")
