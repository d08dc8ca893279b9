"""P08: attributes accompany the data in every copy, load, save, selection and conversion.

A structured path walk with provenance of local values. Every value has a set of origins: parameters, loop items (one per
loop), created items (one per creation site), and these tagged by what was read of them (attributes, axis map, name, shape,
contents). Creating an item from an existing one leaves an obligation that only copying the attributes of *that* original
to *that* new item discharges; no iteration or return may end with an obligation left. Helpers are analysed in place.
"""

import ast

from ..core import ClassInfo, FuncInfo, Repo, dotted, walk_scope
from ..report import Result

E = frozenset()
CREATE = {"create_dataset", "create_group", "require_group", "require_dataset"}
AXIS = {"create_index_map"}
READ = {"shape", "dtype", "name", "data", "local_data", "chunks", "compression", "compression_opts", "global_shape", "distributed_axis"}
ATTRS = {"attrs": "attrs", "_attrs": "attrs", "index_attrs": "attrs", "index_map": "map"}
FILL = {"copy_datasets_filter"}
STORAGE = ("chunks", "compression", "compression_opts")
KEEP_STORAGE = {"deep_group_copy", "dataset_common_to_distributed", "dataset_distributed_to_common"}
MODULES = ("memdata", "containers")
MAX = 64


def base(o):
    return base(o[1]) if o[0].startswith("@") else o


def tagged(os, *tags):
    return frozenset(o for o in os if o[0] in tags)


class St:
    __slots__ = ("env", "pend", "rets")

    def __init__(self, env, pend):
        self.env, self.pend = env, pend

    def copy(self):
        return St(dict(self.env), self.pend)


class Walk:
    def __init__(self, rule, f):
        self.rule, self.repo, self.f, self.res = rule, rule.repo, f, rule.res
        self.stack = [f]
        self.raised = 0
        self.sites = set()
        self.copies = set()
        self.root_copied = False
        self.carried = {}
        self.entries = set()
        self.iter_syms = set()

    # -- entry
    def run(self):
        env = {}
        for p in self.f.all_params():
            env[p] = frozenset({("p", p)})
        a = self.f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = frozenset({("p", x.arg)})
        outs = self.body(self.f.node.body, [St(env, E)])
        for s in outs["fall"] + outs["ret"]:
            self.left(s, self.f.node)

    def left(self, s, node):
        for site in sorted(s.pend, key=str):
            _, desc, line, _, _, _ = site
            self.res.add("attributes-not-copied", self.f.qualname, desc, f"{self.stack[0].module.rel}:{line}",
                         f"{self.f.short()}: a path leaves the item made by {desc} without the attributes of the item it was made from")

    # -- statements; outs: fall, ret, brk, cont
    @staticmethod
    def uniq(ss):
        if len(ss) <= 1:
            return ss
        seen, out = set(), []
        for s in ss:
            k = (s.pend, frozenset(s.env.items()))
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > MAX:
            by = {}
            for s in out:
                t = by.setdefault(s.pend, s)
                if t is not s:
                    for k, v in s.env.items():
                        t.env[k] = t.env.get(k, E) | v
            out = list(by.values())
        return out

    def body(self, body, states):
        outs = {"fall": states, "ret": [], "brk": [], "cont": []}
        for st in body:
            if not outs["fall"]:
                break
            o = self.stmt(st, self.uniq(outs["fall"]))
            outs["fall"] = o["fall"]
            for k in ("ret", "brk", "cont"):
                outs[k] += o[k]
        return outs

    def fall(self, states):
        return {"fall": states, "ret": [], "brk": [], "cont": []}

    def stmt(self, n, states):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for s in states:
                s.env[n.name] = frozenset({("fn", n.name)})
            return self.fall(states)
        if isinstance(n, ast.ClassDef):
            return self.fall(states)
        if isinstance(n, ast.Return):
            out = []
            for s in states:
                for s2, v in self.ev(n.value, s) if n.value is not None else [(s, E)]:
                    s2.env["$ret"] = v
                    out.append(s2)
            return {"fall": [], "ret": out, "brk": [], "cont": []}
        if isinstance(n, ast.Raise):
            return {"fall": [], "ret": [], "brk": [], "cont": []}
        if isinstance(n, ast.Break):
            return {"fall": [], "ret": [], "brk": states, "cont": []}
        if isinstance(n, ast.Continue):
            return {"fall": [], "ret": [], "brk": [], "cont": states}
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if n.value is None:
                return self.fall(states)
            out = []
            for s in states:
                for s2, v in self.ev(n.value, s):
                    for t in targets:
                        self.assign(t, v, s2, n.value)
                    out.append(s2)
            return self.fall(out)
        if isinstance(n, ast.AugAssign):
            out = []
            for s in states:
                for s2, v in self.ev(n.value, s):
                    if isinstance(n.target, ast.Name):
                        s2.env[n.target.id] = s2.env.get(n.target.id, E) | v
                    out.append(s2)
            return self.fall(out)
        if isinstance(n, ast.If):
            return self.branch(n, states)
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(n, states)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                nxt = []
                for s in states:
                    for s2, v in self.ev(it.context_expr, s):
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, s2, it.context_expr)
                        nxt.append(s2)
                states = nxt
            return self.body(n.body, states)
        if isinstance(n, (ast.Try, ast.TryStar)):
            start = [s.copy() for s in states]
            o = self.body(n.body, states)
            if n.orelse and o["fall"]:
                p = self.body(n.orelse, o["fall"])
                o = {k: (p[k] if k == "fall" else o[k] + p[k]) for k in o}
            for h in n.handlers:
                ss = [s.copy() for s in start]
                if h.name:
                    for s in ss:
                        s.env[h.name] = E
                p = self.body(h.body, ss)
                o = {k: o[k] + p[k] for k in o}
            if n.finalbody:
                for k in list(o):
                    if o[k]:
                        p = self.body(n.finalbody, o[k])
                        o[k] = p["fall"]
            return o
        if isinstance(n, ast.Match):
            o = self.fall([s.copy() for s in states])
            for c in n.cases:
                p = self.body(c.body, [s.copy() for s in states])
                o = {k: o[k] + p[k] for k in o}
            return o
        out = states
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                out = [s2 for s in out for s2, _ in self.ev(x, s)]
        return self.fall(out)

    def test(self, e, s):
        """True / False when the test is decided on this path, else None."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.test(e.operand, s)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = [self.test(x, s) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(e, ast.Name):
            v = s.env.get(e.id, E)
            if v and all(o[0] == "const" for o in v) and len(v) == 1:
                return bool(next(iter(v))[1])
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            txt = ast.unparse(l)
            if txt.split(".")[-1] in ("rank", "rank0") and isinstance(r, ast.Constant) and r.value == 0:
                # what the root process does is what the others receive
                return True if isinstance(e.ops[0], ast.Eq) else False if isinstance(e.ops[0], ast.NotEq) else None
            if isinstance(l, ast.Name) and isinstance(r, ast.Constant) and r.value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
                v = s.env.get(l.id, E)
                pos = isinstance(e.ops[0], ast.Is)
                if v == frozenset({("const", None)}):
                    return pos
                f = s.env.get("$none:" + l.id)
                if f is not None:
                    return (f == frozenset({("const", True)})) == pos
        return None

    def assume(self, e, s, taken):
        """Record what the outcome of a None test says about a name."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, s, not taken)
        if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.And) == taken):
            for x in e.values:
                self.assume(x, s, taken)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            s.env["$none:" + e.left.id] = frozenset({("const", isinstance(e.ops[0], ast.Is) == taken)})

    def branch(self, n, states):
        o = self.fall([])
        yes, no = [], []
        for s in states:
            for s2, _ in self.ev(n.test, s):
                t = self.test(n.test, s2)
                if t is not False:
                    a = s2.copy()
                    self.assume(n.test, a, True)
                    yes.append(a)
                if t is not True:
                    b = s2.copy()
                    self.assume(n.test, b, False)
                    no.append(b)
        for b, ss in ((n.body, yes), (n.orelse, no)):
            if ss:
                p = self.body(b, ss)
                o = {k: o[k] + p[k] for k in o}
        return o

    def loop(self, n, states):
        entry = []
        if isinstance(n, ast.While):
            for s in states:
                entry += [s2 for s2, _ in self.ev(n.test, s)]
        else:
            for s in states:
                for s2, v in self.ev(n.iter, s):
                    s2.env["$it%d" % id(n)] = v
                    entry.append(s2)
        out = self.fall([])
        exits = [s.copy() for s in entry] if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value) else []
        cur = entry
        broke = []
        for rnd in range(2):
            ss = []
            for s in cur:
                s = s.copy()
                before = s.pend
                if not isinstance(n, ast.While):
                    v = s.env["$it%d" % id(n)]
                    self.bind_loop(n.target, v, s, n)
                s.env["$before%d" % id(n)] = before
                s.env["$done"] = E
                s.env["$outer%d" % id(n)] = s.env.get("$cp", E)
                s.env["$cp"] = E
                ss.append(s)
            o = self.body(n.body, self.uniq(ss))
            ends = o["fall"] + o["cont"]
            if rnd == 0 and not isinstance(n, ast.While) and over_attrs(n.iter) and ends:
                # no attributes, nothing to copy
                gone = frozenset().union(*[s.env.get("$before%d" % id(n), E) for s in ends]) - frozenset().union(*[s.pend for s in ends])
                for s in exits:
                    s.pend = s.pend - gone
            here = frozenset().union(*[s.env.get("$cp", E) for s in ends]) & self.entries & self.iter_syms if ends else E
            for s in ends:
                for sym in here - s.env.get("$cp", E):
                    self.res.add("attributes-not-copied", self.f.qualname, "entry", self.stack[-1].loc(n), f"{self.f.short()}: a path through the loop over the entries to copy does not copy the attributes of the entry")
            for s in ends + o["brk"]:
                s.env["$cp"] = s.env.pop("$outer%d" % id(n), E)
                new = s.pend - s.env.get("$before%d" % id(n), E)
                if new:
                    t = s.copy()
                    t.pend = new
                    self.left(t, n)
                    s.pend = s.pend - new
            for s in o["ret"]:
                s.env["$cp"] = s.env.get("$cp", E) | s.env.get("$outer%d" % id(n), E)
            out["ret"] += o["ret"]
            out["brk"] += []
            exits += [s.copy() for s in ends]
            broke += o["brk"]
            cur = self.uniq(ends)
            if not cur:
                break
        if n.orelse:
            p = self.body(n.orelse, self.uniq(exits))
            for k in ("ret", "brk", "cont"):
                out[k] += p[k]
            exits = p["fall"]
        out["fall"] = self.uniq(exits + broke)
        return out

    def bind_loop(self, t, v, s, n):
        item = frozenset({("loop", self.key(n))})
        self.iter_syms |= item
        if isinstance(t, ast.Name):
            s.env[t.id] = v | item
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind_loop(x, v, s, n)

    def key(self, n):
        return (n.lineno, n.col_offset, self.stack[-1].qualname)

    # -- stores
    def assign(self, t, v, s, value):
        if isinstance(t, ast.Name):
            if isinstance(value, ast.Call) and self.callname(value) == "pop" and isinstance(value.func.value, ast.Name) and value.func.value.id in s.env and not value.args:
                # an item taken from a work list
                v = v | {("loop", self.key(value))}
                self.iter_syms.add(("loop", self.key(value)))
            s.env[t.id] = v
            s.env.pop("$none:" + t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                vv = v
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    vv = self.pure(value.elts[i], s)
                self.assign(x, vv, s, None)
        elif isinstance(t, ast.Subscript):
            b = self.pure(t.value, s)
            if value is not None and any(isinstance(x, ast.Attribute) and x.attr in ("_get_storage", "_storage_root") for x in ast.walk(value)):
                # the very same item is placed in the new tree, with its attributes
                s.env["$cp"] = s.env.get("$cp", E) | frozenset(base(o) for o in v if base(o)[0] == "loop")
            if b and all(o[0] == "@attrs" for o in b):
                # new.attrs[...] = value of original.attrs
                self.discharge(v, b, s)
            elif isinstance(t.value, ast.Name):
                s.env[t.value.id] = s.env.get(t.value.id, E) | v
                if self.f.name in FILL and whole(t.slice) and any(base(o)[0] == "loop" for o in v):
                    self.oblige(t, f"{ast.unparse(t)} = ...", b | v, v, s, b, True)
        elif isinstance(t, ast.Attribute) and t.attr in ("attrs", "_attrs"):
            self.discharge(v, frozenset(("@attrs", o) for o in self.pure(t.value, s)), s)

    # -- obligations
    def oblige(self, node, desc, args, src, s, dst=E, fill=False):
        k = self.key(node)
        spec = frozenset(base(o) for o in args if base(o)[0] == "loop")
        if not spec:
            spec = frozenset(base(o) for o in args if base(o) not in (("p", "self"), ("p", "cls")) and base(o)[0] == "p")
        self.sites.add((self.stack[-1].module.rel, node.lineno))
        ob = (k, desc, node.lineno, spec, frozenset(base(o) for o in dst), fill)
        if fill and any(self.meets(ob, a, b) for a, b in s.env.get("$done", E)):
            return
        s.pend = s.pend | {ob}

    @staticmethod
    def meets(ob, src, dst):
        k, _, _, spec, tgt, fill = ob
        into = not fill and ("new", k) in dst or bool(tgt) and tgt <= dst and (fill or bool(spec & dst & frozenset(o for o in spec if o[0] == "loop")) or not any(o[0] == "loop" for o in spec) and bool(spec & dst))
        return into and bool(spec & src) and not (fill and tgt - spec and tgt <= src)

    def discharge(self, a, b, s):
        """Attributes `a` are set on the attributes `b`."""
        src = frozenset(base(o) for o in a)
        if not any(o[0] == "@attrs" for o in a):
            return
        dst = frozenset(base(o) for o in b)
        s.env["$done"] = s.env.get("$done", E) | {(src, dst)}
        s.env["$cp"] = s.env.get("$cp", E) | frozenset(o[1] for o in a if o[0] == "@attrs" and o[1][0] == "loop")
        s.pend = frozenset(ob for ob in s.pend if not self.meets(ob, src, dst))

    # -- expressions: list of (state, origins)
    def pure(self, e, s):
        save = s.copy()
        r = self.ev(e, save)
        return frozenset().union(*[v for _, v in r]) if r else E

    def evs(self, es, s):
        outs = [(s, [])]
        for e in es:
            nxt = []
            for st, vs in outs:
                for s2, v in self.ev(e, st):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, e, s):
        if e is None:
            return [(s, E)]
        if isinstance(e, ast.Constant):
            return [(s, frozenset({("const", e.value)}) if isinstance(e.value, (bool, type(None))) else E)]
        if isinstance(e, ast.Name):
            return [(s, s.env.get(e.id, E))]
        if isinstance(e, ast.Attribute):
            return [(s2, self.attr(v, e.attr)) for s2, v in self.ev(e.value, s)]
        if isinstance(e, ast.Subscript):
            out = []
            for s2, (b, i) in self.evs([e.value, e.slice], s):
                out.append((s2, frozenset(("@read", o) if o[0] not in ("@attrs", "@map", "@read") else o for o in b) | i if whole(e.slice) else b | i))
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for s2, _ in self.ev(e.test, s):
                t = self.test(e.test, s2)
                if t is not False:
                    out += self.ev(e.body, s2.copy())
                if t is not True:
                    out += self.ev(e.orelse, s2.copy())
            return out
        if isinstance(e, ast.NamedExpr):
            out = self.ev(e.value, s)
            for s2, v in out:
                self.assign(e.target, v, s2, e.value)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Lambda):
            return [(s, E)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            keep = {k: s.env.get(k) for g in e.generators for k in names(g.target)}
            v = E
            for g in e.generators:
                it = self.pure(g.iter, s)
                v |= it
                for k in names(g.target):
                    s.env[k] = it | {("loop", self.key(g.target))}
                for c in g.ifs:
                    if over_attrs(g.iter) and not only_axis(c):
                        self.res.add("attributes-filtered", self.f.qualname, ast.unparse(c), self.stack[-1].loc(e), f"{self.f.short()} leaves out attributes of the original ({ast.unparse(c)})")
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                v |= self.pure(x, s)
            for k, old in keep.items():
                if old is None:
                    s.env.pop(k, None)
                else:
                    s.env[k] = old
            return [(s, v)]
        kids = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        if isinstance(e, ast.Dict):
            kids = [x for x in [*e.keys, *e.values] if x is not None]
        return [(s2, frozenset().union(*vs) if vs else E) for s2, vs in self.evs(kids, s)]

    def attr(self, v, name):
        if name in ATTRS:
            return frozenset(("@" + ATTRS[name], o) for o in v)
        if name in READ:
            return frozenset((("@" + name) if name in STORAGE or name == "name" else "@read", o) if o[0] not in ("@attrs",) else o for o in v)
        return v

    def callname(self, e):
        return e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""

    def call(self, e, s):
        name = self.callname(e)
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.args] + [k.value for k in e.keywords]
        out = []
        recv_e = [e.func.value] if isinstance(e.func, ast.Attribute) else []
        for s2, vs in self.evs(recv_e + exprs, s):
            recv = vs[0] if recv_e else E
            vals = vs[len(recv_e):]
            args = vals[: len(e.args)]
            kws = {k.arg: v for k, v in zip(e.keywords, vals[len(e.args):])}
            allv = frozenset().union(*vals) if vals else E
            if name == "copyattrs":
                a = args[0] if args else kws.get("a1", E)
                b = args[1] if len(args) > 1 else kws.get("a2", E)
                be = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "a2"), None)
                self.copies.add((self.stack[-1].module.rel, e.lineno))
                if any(o[0] == "@attrs" for o in b):
                    self.discharge(a, b, s2)
                    if self.f.name == "__init__" and {base(o) for o in b} == {("p", "self")}:
                        s2.env["$root"] = s2.env.get("$root", E) | a
                elif isinstance(be, ast.Name):
                    s2.env[be.id] = s2.env.get(be.id, E) | a
                out.append((s2, E))
                continue
            if name == "update" and any(o[0] == "@attrs" for o in recv):
                self.discharge(allv, recv, s2)
                out.append((s2, E))
                continue
            g = self.resolve(e)
            if g is not None and g not in self.stack and len(self.stack) < 5 and self.rule.relevant(g):
                out += self.inline(g, e, s2, recv, args, kws)
                continue
            if g is not None and g in self.stack and name not in CREATE:
                # a recursive call does for its argument what this call does for its own
                bound = self.params(g, e, recv, args, kws)
                self.recursed(g, bound, s2)
                out.append((s2, allv))
                continue
            if name in CREATE and recv_e or name in AXIS:
                if name in AXIS:
                    src = tagged(allv, "@map")
                else:
                    src = frozenset(o for o in allv if o[0] in ("@read", "@name", *["@" + x for x in STORAGE]) or o[0] == "loop" and name != "create_dataset")
                if src:
                    k = self.key(e)
                    self.oblige(e, f"{ast.unparse(e.func)}({ast.unparse(e.args[0]) if e.args else ''}, ...)", allv, src, s2, recv or frozenset({("none", k)}))
                    if self.f.name not in FILL:
                        first = args[0] if args else kws.get("name", E)
                        self.entries |= {o[1] for o in first if o[0] == "@name" and o[1][0] == "loop"}
                    if name == "create_dataset" and self.f.name in KEEP_STORAGE and any(base(o)[0] in ("loop", "p") for o in src):
                        got = {o[0][1:] for o in allv if o[0][1:] in STORAGE}
                        c = self.carried.setdefault(k, (e, set(got)))
                        c[1].intersection_update(got)
                    out.append((s2, frozenset({("new", k)})))
                    continue
                out.append((s2, allv | recv))
                continue
            if name == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                out.append((s2, self.attr(args[0], e.args[1].value)))
                continue
            out.append((s2, allv | recv))
        return out

    def resolve(self, e):
        fn = e.func
        f = self.stack[-1]
        if isinstance(fn, ast.Name):
            for h in (f, *ancestors(f)):
                for x in h.module.all_funcs:
                    if x.parent is h and x.name == fn.id:
                        return x
        g = self.repo.resolve_expr(fn, f.module, f)
        if isinstance(g, FuncInfo):
            return g
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
            g = f.cls.lookup(fn.attr)
            if isinstance(g, FuncInfo):
                return g
        return None

    def params(self, g, e, recv, args, kws):
        ps = g.all_params()
        bound = {}
        if g.is_method and not g.is_static and ps:
            bound[ps[0]] = recv
            ps = ps[1:]
        for p, v in zip(ps, args):
            bound[p] = v
        for k, v in kws.items():
            if k in ps:
                bound[k] = v
            elif k is None:
                for p in ps:
                    bound.setdefault(p, v)
        return bound

    def inline(self, g, e, s, recv, args, kws):
        bound = self.params(g, e, recv, args, kws)
        a = g.node.args
        extra = [v for k, v in kws.items() if k not in bound and k is not None]
        env = dict(s.env) if g.parent is not None else {k: v for k, v in s.env.items() if k.startswith(("$before", "$it", "$outer")) or k in ("$root", "$done", "$cp")}
        pos = a.posonlyargs + a.args
        for p, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *[(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]]:
            env[p.arg] = frozenset({("const", d.value)}) if isinstance(d, ast.Constant) and isinstance(d.value, (bool, type(None))) else E
        for p in g.all_params():
            if p in bound:
                env[p] = bound[p]
            env.pop("$none:" + p, None)
        if a.kwarg:
            env[a.kwarg.arg] = frozenset().union(*extra) if extra else E
        self.stack.append(g)
        st = St(env, s.pend)
        o = self.body(g.node.body, [st])
        self.stack.pop()
        out = []
        for r in self.uniq(o["ret"] + o["fall"]):
            n = St(dict(s.env), r.pend)
            for k in ("$root", "$done", "$cp"):
                if k in r.env:
                    n.env[k] = r.env[k]
            if g.parent is not None:
                for k in r.env:
                    if k in n.env and k not in g.all_params() and not k.startswith("$") and k in nonlocals(g):
                        n.env[k] = r.env[k]
            out.append((n, r.env.get("$ret", E)))
        return out

    def recursed(self, g, bound, s):
        """Attributes of an item passed to the routine itself are copied if the routine does so for its own argument."""
        pair = self.rule.whole(g)
        if pair is None:
            return
        a, b = pair
        if a in bound and b in bound:
            self.discharge(frozenset(("@attrs", o) for o in bound[a]), frozenset(("@attrs", o) for o in bound[b]), s)


def ancestors(f):
    out = []
    while f.parent is not None:
        f = f.parent
        out.append(f)
    return out


def nonlocals(g):
    return {x for n in ast.walk(g.node) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}


def names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def whole(sl):
    if isinstance(sl, ast.Slice):
        return sl.lower is None and sl.upper is None and sl.step is None
    return isinstance(sl, ast.Constant) and sl.value is Ellipsis


def over_attrs(it):
    """The iteration is over the attributes of an item themselves."""
    while isinstance(it, ast.Call):
        it = it.func.value if isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "copy") else it.args[0] if it.args else None
    return isinstance(it, ast.Attribute) and it.attr in ("attrs", "_attrs") or isinstance(it, ast.Subscript) and isinstance(it.value, ast.Attribute) and it.value.attr == "index_attrs"


def only_axis(c):
    """The condition leaves out nothing but the 'axis' attribute."""
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        l, r = c.left, c.comparators[0]
        if isinstance(c.ops[0], ast.NotEq):
            return any(isinstance(x, ast.Constant) and x.value == "axis" for x in (l, r))
        if isinstance(c.ops[0], ast.NotIn) and isinstance(r, (ast.Tuple, ast.List, ast.Set)):
            return all(isinstance(x, ast.Constant) and x.value == "axis" for x in r.elts)
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Compare) and len(c.operand.ops) == 1 and isinstance(c.operand.ops[0], ast.Eq):
        return any(isinstance(x, ast.Constant) and x.value == "axis" for x in (c.operand.left, c.operand.comparators[0]))
    return False


class Rule:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self._rel = {}

    def relevant(self, g, seen=()):
        """Does the helper create items, copy attributes, or (in these modules) prepare values of items?"""
        if g in self._rel:
            return self._rel[g]
        self._rel[g] = False
        r = g.name not in CREATE | AXIS | {"copyattrs", "attrs2dict", "add_dataset", "compression_kwargs"} and any(
            isinstance(n, ast.Attribute) and n.attr in CREATE | AXIS | {"copyattrs", "attrs", "compression"} or isinstance(n, ast.Name) and n.id in {"copyattrs"} or isinstance(n, ast.Constant) and n.value in STORAGE
            for n in ast.walk(g.node)
        )
        if not r and g.name not in CREATE | AXIS | {"copyattrs"}:
            for n in walk_scope(g.node):
                if isinstance(n, ast.Call):
                    h = self.repo.resolve_expr(n.func, g.module, g)
                    if isinstance(h, FuncInfo) and h is not g and h.module.name.split(".")[1:2] and h.module.name.split(".")[1] in MODULES and self.relevant(h):
                        r = True
                        break
        self._rel[g] = r
        return r

    def whole(self, g):
        """(source parameter, target parameter) if the routine copies the attributes of one parameter to another first thing."""
        ps = g.all_params()

        def calls(h, binding, depth):
            for st in h.node.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    e = st.value
                    nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
                    aa = [x for x in e.args]
                    if nm == "copyattrs" and len(aa) >= 2:
                        return [binding.get(next(iter(names(x)), "")) for x in aa[:2]]
                    if depth < 3:
                        t = None
                        for k in (h, *ancestors(h)):
                            t = t or next((x for x in h.module.all_funcs if x.parent is k and x.name == nm), None)
                        if t is None:
                            r = self.repo.resolve_expr(e.func, h.module, h)
                            t = r if isinstance(r, FuncInfo) else None
                        if t is not None and t is not h:
                            b2 = {p: binding.get(x.id) for p, x in zip(t.all_params(), aa) if isinstance(x, ast.Name)}
                            # a local that holds the attributes of a parameter
                            for n in walk_scope(t.node):
                                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                                    for q in names(n.value):
                                        if b2.get(q):
                                            b2.setdefault(n.targets[0].id, b2[q])
                            r = calls(t, b2, depth + 1)
                            if r:
                                return r
            return None

        r = calls(g, {p: p for p in ps}, 0)
        return tuple(r) if r and all(r) else None


def check_copyattrs(repo, res):
    """The routine that copies attributes sets every attribute of the first argument on the second."""
    fs = [f for f in repo.all_functions() if f.name == "copyattrs" and f.parent is None and f.cls is None and not f.module.rel.endswith(".pyi")]
    res.stats["attribute_copiers"] = len(fs)
    for f in fs:
        ps = f.all_params()
        if len(ps) < 2:
            continue
        ok = None
        for n in walk_scope(f.node):
            if isinstance(n, ast.For):
                tgt = names(n.target)
                r = every_path_sets(n.body, ps[1], tgt)
                if r is not None:
                    ok = bool(r)
                    if not r:
                        res.add("attribute-skipped", f.qualname, "loop", f.loc(n), f"{f.short()}: a path through the loop over the attributes does not set the attribute on the destination")
                    for x in [n.iter, *[y for y in ast.walk(n.iter)]]:
                        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and any(g.ifs for g in x.generators) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "filter" or isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
                            res.add("attribute-skipped", f.qualname, ast.unparse(n.iter), f.loc(n), f"{f.short()} does not go over all attributes ({ast.unparse(n.iter)})")
                            break
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Name) and n.func.value.id == ps[1]:
                ok = True
        if ok is None:
            res.add("attribute-skipped", f.qualname, "none", f.loc(), f"{f.short()} does not set the attributes on its second argument")
    for f in repo.all_functions():
        if f.name == "attrs2dict" and f.parent is None and not f.module.rel.endswith(".pyi"):
            for n in ast.walk(f.node):
                if isinstance(n, ast.comprehension) and n.ifs:
                    res.add("attribute-skipped", f.qualname, ast.unparse(n.ifs[0]), f.loc(), f"{f.short()} leaves out attributes ({ast.unparse(n.ifs[0])})")
                if isinstance(n, ast.For) and any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)):
                    res.add("attribute-skipped", f.qualname, "loop", f.loc(n), f"{f.short()}: a path through the loop skips an attribute")


def every_path_sets(body, dst, keys):
    """None: never sets dst[key]; True: on every path to the end of the body; False: only on some."""

    def sets(st):
        return isinstance(st, (ast.Assign, ast.AnnAssign)) and any(
            isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == dst and names(t.slice) & keys for t in (st.targets if isinstance(st, ast.Assign) else [st.target])
        ) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("__setitem__", "create", "put") and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == dst

    def walk(body):
        """(paths that ended without setting, falls through unset, falls through set)"""
        bad, unset, done = False, True, False
        for st in body:
            if not unset and not done:
                break
            if isinstance(st, (ast.Continue, ast.Break, ast.Return)):
                return bad or unset, False, False
            if isinstance(st, ast.Raise):
                return bad, False, False
            if sets(st):
                unset, done = False, True
                if any(isinstance(x, ast.IfExp) for x in []):
                    pass
            elif isinstance(st, ast.If):
                b1, u1, d1 = walk(st.body)
                b2, u2, d2 = walk(st.orelse)
                if unset:
                    bad = bad or b1 or b2
                    unset, done = u1 or u2, done or d1 or d2
            elif isinstance(st, ast.Try):
                b1, u1, d1 = walk(st.body)
                if unset:
                    bad = bad or b1
                    hs = [walk(h.body) for h in st.handlers]
                    bad = bad or any(h[0] for h in hs)
                    unset = u1 or any(h[1] for h in hs)
                    done = done or d1 or any(h[2] for h in hs)
            elif isinstance(st, (ast.With,)):
                b1, u1, d1 = walk(st.body)
                if unset:
                    bad, unset, done = bad or b1, u1, done or d1
        return bad, unset, done

    if not any(sets(x) for st in body for x in ast.walk(st) if isinstance(x, ast.stmt)):
        return None
    bad, unset, _ = walk(body)
    return not bad and not unset


def check_copy(repo, res):
    """MemDataset.copy and view: attributes and storage settings of the original are put on the new object."""
    for m in repo.modules.values():
        for c in m.classes.values():
            if m.rel.endswith(".pyi"):
                continue
            g = c.methods.get("copy")
            if g is None or not any(isinstance(x, ClassInfo) and x.name == "MemDataset" for x in c.mro()):
                continue
            res.stats["dataset_copies"] += 1
            set_ = {}
            for n in walk_scope(g.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != g.all_params()[0]:
                            set_[t.attr.lstrip("_")] = n.value
            calls_super = any(isinstance(n, ast.Call) and ast.unparse(n.func) == "super().copy" for n in walk_scope(g.node))
            conditional = {t.attr.lstrip("_") for st in g.node.body if not isinstance(st, (ast.Assign, ast.Expr, ast.Return)) for n in ast.walk(st) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Attribute)}
            for a in ("attrs", *STORAGE):
                v = set_.get(a)
                if calls_super or v is None and uses_generic(g, a):
                    continue
                if v is None:
                    res.add("copy-drops-setting", g.qualname, a, g.loc(), f"{g.short()} does not put the {a} of the original on the copy")
                elif not any(isinstance(x, ast.Attribute) and x.attr.lstrip("_") == a for x in ast.walk(v)):
                    res.add("copy-drops-setting", g.qualname, a, g.loc(v), f"{g.short()} sets {a} of the copy from something else ({ast.unparse(v)})")
                elif a in conditional and not both_sides(g, a):
                    res.add("copy-drops-setting", g.qualname, a, g.loc(v), f"{g.short()} puts {a} of the original on the copy only in some cases")


def uses_generic(g, a):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" for n in walk_scope(g.node)) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update",) and "__dict__" in ast.unparse(n.func) for n in walk_scope(g.node))


def both_sides(g, a):
    for n in walk_scope(g.node):
        if isinstance(n, ast.If):
            def has(b):
                return any(isinstance(t, ast.Attribute) and t.attr.lstrip("_") == a for st in b for x in ast.walk(st) if isinstance(x, ast.Assign) for t in x.targets)
            if has(n.body) and has(n.orelse):
                return True
    return False


def check_root(repo, res):
    """A container built with `attrs_from` takes over the attributes of that container and of its datasets."""
    for m in repo.modules.values():
        if m.rel.endswith(".pyi"):
            continue
        for c in m.classes.values():
            g = c.methods.get("__init__")
            if g is None or "attrs_from" not in {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name)} | {n.value for n in ast.walk(g.node) if isinstance(n, ast.Constant)}:
                continue
            res.stats["container_builders"] += 1
            root = items = False
            fs = [g] + [x for n in walk_scope(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for x in [c.lookup(n.func.attr)] if isinstance(x, FuncInfo)]
            fs += [x for n in walk_scope(g.node) if isinstance(n, ast.Call) for x in [repo.resolve_expr(n.func, m, g)] if isinstance(x, FuncInfo) and x.module is m]
            for h in fs:
                for n in ast.walk(h.node):
                    if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) == "copyattrs" and len(n.args) >= 2:
                        x, y = n.args[:2]
                        if any(isinstance(z, ast.Attribute) and z.attr == "index_attrs" for z in ast.walk(n)):
                            continue
                        own = h.all_params()[0] if h.all_params() and h.is_method else "self"
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == own:
                            continue
                        direct = isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name)
                        if direct and (y.value.id == own or h is not g and y.value.id in h.all_params()):
                            root = True
                        else:
                            items = True
            if not root:
                res.add("attributes-not-copied", g.qualname, "attrs_from root", g.loc(), f"{g.short()} does not copy the attributes of the container given as attrs_from")
            if not items:
                res.add("attributes-not-copied", g.qualname, "attrs_from datasets", g.loc(), f"{g.short()} does not copy the attributes of the datasets of the container given as attrs_from")


def check_like(repo, res):
    """`empty_like`: the axes and the attributes come from the same container."""
    for f in repo.all_functions():
        if f.name != "empty_like" or f.module.rel.endswith(".pyi"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                kw = {k.arg: ast.unparse(k.value) for k in n.keywords if k.arg}
                if "axes_from" in kw and "copy_from" not in kw and kw.get("attrs_from") != kw["axes_from"]:
                    res.add("attributes-not-copied", f.qualname, "attrs_from", f.loc(n), f"{f.short()} makes a container with the axes of another but not its attributes")


def run(repo, tier="quick"):
    res = Result(stats={"functions": 0, "creation_sites": 0, "attribute_copies": 0, "attribute_copiers": 0, "dataset_copies": 0, "container_builders": 0})
    rule = Rule(repo, res)
    sites, copies = set(), set()
    for f in repo.all_functions():
        if f.parent is not None or f.module.rel.endswith(".pyi") or f.name in CREATE | AXIS | {"copyattrs"}:
            continue
        parts = f.module.name.split(".")
        if not (len(parts) > 1 and (parts[1] in MODULES or parts[1] == "x" or "tasklib" in parts)):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in CREATE | AXIS | {"add_dataset"} for n in ast.walk(f.node)):
            continue
        w = Walk(rule, f)
        w.run()
        res.stats["functions"] += 1
        sites |= w.sites
        copies |= w.copies
        for k, (e, got) in w.carried.items():
            for a in STORAGE:
                if a not in got:
                    res.add("storage-setting-dropped", f.qualname, a, f.loc(e), f"{f.short()}: the new dataset does not get the {a} of the original")
    res.stats["creation_sites"] = len(sites)
    res.stats["attribute_copies"] = len(copies)
    check_copyattrs(repo, res)
    check_copy(repo, res)
    check_root(repo, res)
    check_like(repo, res)
    res.floors = {"creation_sites": 9, "attribute_copies": 8, "attribute_copiers": 1, "dataset_copies": 1, "container_builders": 1}
    res.explanation = (
        "Obligation analysis: every creation of a dataset, group or axis map from an existing item opens an obligation, discharged only by copying the attributes of that original to that new item; "
        "paths, loop iterations and helpers are followed, and none may end with an obligation open. The attribute copier itself must set every attribute on every path."
    )
    res.assumptions = ["what the root process reads is what the others receive", "the value stored for an attribute equals the original (conversions are outside)"]
    return res


POS = {
    "plain": "def f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        g2.create_dataset(k, data=item[:])\n",
    "branch": "def copyattrs(a, b):\n    for k in a:\n        b[k] = a[k]\ndef f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        d = g2.create_dataset(k, data=item[:])\n        if item.shape:\n            copyattrs(item.attrs, d.attrs)\n",
    "other": "def copyattrs(a, b):\n    for k in a:\n        b[k] = a[k]\ndef f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        d = g2.create_dataset(k, data=item[:])\n        copyattrs(g1.attrs, d.attrs)\n",
    "skip": "def copyattrs(a, b):\n    for k in a:\n        if k == 'x':\n            continue\n        b[k] = a[k]\n",
    "cont": "def copyattrs(a, b):\n    for k in a:\n        b[k] = a[k]\ndef f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        d = g2.create_dataset(k, data=item[:])\n        if d.x:\n            continue\n        copyattrs(item.attrs, d.attrs)\n",
}
NEG = {
    "plain": "def copyattrs(a, b):\n    for k in a:\n        b[k] = a[k]\ndef f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        g2.create_dataset(k, data=item[:])\n        copyattrs(item.attrs, g2[k].attrs)\n",
    "helper": "def copyattrs(a, b):\n    for k in a:\n        b[k] = a[k]\ndef _mv(item, g2):\n    d = g2.create_dataset(item.name, data=item[:])\n    copyattrs(item.attrs, d.attrs)\n    return d\ndef f(g1, g2):\n    for k in g1:\n        _mv(g1[k], g2)\n",
    "hand": "def f(g1, g2):\n    for k in g1:\n        item = g1[k]\n        d = g2.create_dataset(k, data=item[:])\n        for a, v in item.attrs.items():\n            d.attrs[a] = v\n",
    "own": "def f(g, name, data):\n    return g.create_dataset(name, data=data)\n",
}


def selftest():
    out = []
    for k, src in POS.items():
        out.append((f"pos {k}", bool(run(Repo(sources={"caput/x.py": src})).findings)))
    for k, src in NEG.items():
        r = run(Repo(sources={"caput/x.py": src})).findings
        out.append((f"neg {k} {[x.key for x in r]}", not r))
    return out
