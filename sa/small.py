"""Abstract interpretation with short sequences of known length.

`SmallEngine` keeps lists and tuples of up to a few abstract elements apart element by element, so
that loops, comprehensions, any/all/zip/enumerate over them are followed for every element in turn.
Used where a rule quantifies over "every required input": the sequences of length 0..3 with every
combination of present and missing elements form the abstract domain.
"""

import ast

from .flow import NONE, Engine, Out, const, is_const, mk, phi

SEQ = ("tuple", "list")


def seq(*xs):
    return mk("tuple", tuple(xs))


ITEMS = "@items"
MUTATORS = ("append", "appendleft", "extend", "insert", "pop", "popleft", "remove", "clear", "copy", "index", "count", "reverse")


def cell(ident, *xs):
    """A mutable list: (term, heap entry)."""
    c = mk("obj", "cell", ident)
    return c, {(c, ITEMS): mk("tuple", tuple(xs))}


def _names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def is_cell(t):
    return t.k == "obj" and t.a[0] == "cell"


def is_dict(t):
    return t.k == "obj" and t.a[0] == "dictcell"


def _isinst(x, c):
    """isinstance of a known value with builtin classes."""
    if c.k == "tuple":
        rs = [_isinst(x, y) for y in c.a[0]]
        return True if True in rs else (None if None in rs else False)
    if c.k == "bin" and c.a[0] == "BitOr":
        rs = [_isinst(x, y) for y in c.a[1:]]
        return True if True in rs else (None if None in rs else False)
    if c.k != "g" or not isinstance(c.a[0], str):
        return None
    n = c.a[0].split(".")[-1]
    tn = "tuple" if x.k == "tuple" else "list" if is_cell(x) else "dict" if is_dict(x) else type(x.a[1]).__name__ if x.k == "const" else "object"
    up = {"tuple": {"tuple", "Sequence", "Iterable", "Collection"}, "list": {"list", "Sequence", "Iterable", "Collection", "MutableSequence"},
          "bool": {"bool", "int"}, "int": {"int"}, "str": {"str", "Sequence", "Iterable", "Collection"}, "float": {"float"}, "NoneType": {"NoneType"}, "dict": {"dict", "Mapping", "Iterable", "Collection", "MutableMapping"}}.get(tn, set())
    if n in up:
        return True
    if n in ("tuple", "list", "str", "int", "float", "dict", "set", "bool", "bytes", "Sequence"):
        return False
    return None


class SmallEngine(Engine):
    def unknown(self, s, node, it=None):
        """Told when the elements iterated over are not known."""
        h = getattr(self.c, "on_unknown", None)
        return h(self, s, node, it) if h else s

    def known(self, t, s=None):
        if is_dict(t):
            d = self.dict_of(t, s)
            return None if d is None else list(d)
        if is_cell(t):
            h = s.heap.get((t, ITEMS)) if s is not None else None
            return list(h.a[0]) if h is not None and h.k == "tuple" else None
        if t.k in SEQ and not any(x.k == "star" for x in self._elts(t)):
            return list(self._elts(t))
        return None

    def expand(self, it, s=None):
        """Elements of an iterable term when they are known."""
        k = self.known(it, s)
        if k is not None:
            return k
        if it.k == "call" and it.a[1].k == "g" and isinstance(it.a[1].a[0], str):
            n, args = it.a[1].a[0], it.a[2]
            if n == "zip" and args:
                xs = [self.expand(a, s) for a in args]
                if all(x is not None for x in xs):
                    return [mk("tuple", tuple(z)) for z in zip(*xs)]
            if n == "enumerate" and args:
                x = self.expand(args[0], s)
                if x is not None:
                    off = args[1].a[1] if len(args) > 1 and is_const(args[1]) else 0
                    return [mk("tuple", (const(i + off), y)) for i, y in enumerate(x)]
            if n in ("list", "tuple", "iter") and len(args) == 1:
                return self.expand(args[0], s)
            if n == "reversed" and len(args) == 1:
                x = self.expand(args[0], s)
                return None if x is None else x[::-1]
            if n == "range" and args and all(is_const(a) and isinstance(a.a[1], int) for a in args):
                r = range(*[a.a[1] for a in args])
                if len(r) <= 8:
                    return [const(i) for i in r]
        return None

    # -- statements ------------------------------------------------------------
    def s_For(self, n, states):
        out = Out()
        rest = []
        exits = []
        its = [p for s0, it in self.ev(n.iter, states, out) for p in self.force(s0, it, out)]
        for s0, it in its:
            xs = self.expand(it, s0)
            if xs is None:
                rest.append((s0, it))
                continue
            cur = [s0]
            for e in xs:
                nxt = []
                for s in cur:
                    for s1 in self.assign(n.target, e, s, out, n):
                        o = self.block(n.body, [s1])
                        out.ret += o.ret
                        out.exc += o.exc
                        exits += o.brk
                        nxt += o.fall + o.cont
                cur = self.dedupe(nxt)
            if n.orelse and cur:
                o = self.block(n.orelse, cur)
                out.absorb(o, fall=False)
                cur = o.fall
            exits += cur
        for s, it in rest:
            s = self.unknown(s, n, it)
            exits += self._loop(n, [s], it, out)
        out.fall = self.dedupe(exits)
        return out

    def s_While(self, n, states):
        """Unrolled while the condition is decided on each path; otherwise the usual fixpoint."""
        out = Out()
        exits, cur = [], list(states)
        for _ in range(40):
            nxt = []
            for s in self.dedupe(cur):
                t, f = self.cond(n.test, [s], out, n)
                if t and f:
                    s = self.unknown(s, n)
                    exits += self._loop(n, [s], None, out)
                    continue
                if f:
                    if n.orelse:
                        o = self.block(n.orelse, f)
                        out.absorb(o, fall=False)
                        f = o.fall
                    exits += f
                if t:
                    o = self.block(n.body, t)
                    out.ret += o.ret
                    out.exc += o.exc
                    exits += o.brk
                    nxt += o.fall + o.cont
            cur = nxt
            if not cur:
                break
        for s in self.dedupe(cur):
            exits += self._loop(n, [self.unknown(s, n)], None, out)
        out.fall = self.dedupe(exits)
        return out

    # -- comprehensions ----------------------------------------------------------
    def e_GeneratorExp(self, e, states, out):
        """Generators are evaluated where they are consumed."""
        res = []
        for s in states:
            t = mk("lazygen", id(e), tuple(sorted((k, v) for k, v in s.env.items() if k in _names(e))))
            self.gens[t] = e
            res.append((s, t))
        return res

    @property
    def gens(self):
        return self.__dict__.setdefault("_gens", {})

    def force(self, s, t, out):
        """Outcomes of consuming the iterable completely."""
        if t.k != "lazygen":
            return [(s, t)]
        e = self.gens[t]
        saved = s.env
        g = s.copy()
        g.env = {**saved, **dict(t.a[1])}
        return [(self._restore(x, saved), v) for x, v in self._comp(e, [g], out, [e.elt])]

    def force_all(self, s, ts, out):
        acc = [(s, [])]
        for t in ts:
            acc = [(s2, vs + [v]) for s1, vs in acc for s2, v in self.force(s1, t, out)]
        return acc

    def _comp(self, e, states, out, elts):
        res, rest = [], []
        for s in states:
            r = self._comp_small(e, s, out, ast.Tuple(elts=list(elts), ctx=ast.Load()) if isinstance(e, ast.DictComp) else elts[0], 0)
            if r is None:
                rest.append(s)
            else:
                saved = s.env
                for s2, vals in r:
                    s2 = self._restore(s2, saved)
                    if isinstance(e, ast.SetComp):
                        res.append((s2, mk("set", id(e), tuple(dict.fromkeys(vals)))))
                    elif isinstance(e, ast.DictComp):
                        if all(is_const(v.a[0][0]) for v in vals):
                            res.append(self.new_dict(s2, e, [v.a[0] for v in vals]))
                        else:
                            res.append((s2, mk("unk", "dict", id(e))))
                    elif isinstance(e, ast.GeneratorExp):
                        res.append((s2, mk("list", 0, tuple(vals))))
                    else:
                        res.append(self.new_cell(s2, e, vals))
        if rest:
            rest = [self.unknown(s, e) for s in rest]
            res += super()._comp(e, rest, out, elts)
        return res

    def _comp_small(self, e, s, out, elt, gi):
        if gi == len(e.generators):
            return [(s1, [v]) for s1, v in self.ev(elt, [s], out)]
        g = e.generators[gi]
        its = [p for s1, it in self.ev(g.iter, [s], out) for p in self.force(s1, it, out)]
        acc = []
        for s1, it in its:
            xs = self.expand(it, s1)
            if xs is None:
                return None
            cur = [(s1, [])]
            for x in xs:
                nxt = []
                for s2, vals in cur:
                    for s3 in self.assign(g.target, x, s2, out, e):
                        t, f = [s3], []
                        for c in g.ifs:
                            if t:
                                t, f1 = self.cond(c, t, out)
                                f += f1
                        nxt += [(y, vals) for y in f]
                        for y in t:
                            r = self._comp_small(e, y, out, elt, gi + 1)
                            if r is None:
                                return None
                            nxt += [(z, vals + vs) for z, vs in r]
                cur = nxt
                if len(cur) > 200:
                    return None
            acc += cur
        return acc

    # -- builtins on known sequences -----------------------------------------------
    def _lazy(self, d, gen, s, out):
        """any/all over a generator: stops at the first deciding element."""
        g = gen.generators[0]
        res = []
        its = [p for s1, it in self.ev(g.iter, [s], out) for p in self.force(s1, it, out)]
        for s1, it in its:
            xs = self.expand(it, s1)
            if xs is None:
                return None
            cur = [s1]
            for x in xs:
                nxt = []
                for s2 in cur:
                    for s3 in self.assign(g.target, x, s2, out, gen):
                        t = [s3]
                        for c in g.ifs:
                            if t:
                                t, f = self.cond(c, t, out)
                                nxt += f
                        if t:
                            a, b = self.cond(gen.elt, t, out)
                            stop, go = (a, b) if d == "any" else (b, a)
                            res += [(self._restore(y, s.env), const(d == "any")) for y in stop]
                            nxt += go
                cur = nxt
            res += [(self._restore(y, s.env), const(d != "any")) for y in cur]
        return res

    def pure_call(self, e, s, fn, args, kws):
        if fn.k == "g" and isinstance(fn.a[0], str):
            n = fn.a[0]
            if n == "len" and len(args) == 1:
                x = self.expand(args[0], s)
                if x is not None:
                    return const(len(x))
            if n in ("any", "all") and len(args) == 1:
                x = self.expand(args[0], s)
                if x is not None:
                    tv = [self.truth(s, y) for y in x]
                    if n == "any" and any(t is True for t in tv):
                        return const(True)
                    if n == "all" and any(t is False for t in tv):
                        return const(False)
                    if None not in tv:
                        return const(n == "all")
            if n in ("min", "max", "sum") and args:
                x = self.expand(args[0], s) if len(args) == 1 else list(args)
                if x is not None:
                    if not x:
                        dflt = [v for k, v in kws if k == "default"]
                        if dflt:
                            return dflt[0]
                        if n == "sum":
                            return const(0)
                    elif all(is_const(y) for y in x):
                        return const({"min": min, "max": max, "sum": sum}[n](y.a[1] for y in x))
            if n in ("sorted", "reversed") and len(args) == 1:
                x = self.expand(args[0], s)
                if x is not None and len(x) <= 1:
                    return mk("tuple", tuple(x))
            if n in ("min", "max") and len(args) == 1:
                x = self.expand(args[0], s)
                if x is not None and len(x) == 1:
                    return x[0]
            if n in ("tuple", "list") and len(args) == 1:
                x = self.expand(args[0], s)
                if x is not None:
                    return mk("tuple", tuple(x)) if n == "tuple" else mk("list", id(e), tuple(x))
        return super().pure_call(e, s, fn, args, kws)

    # -- mutable lists ---------------------------------------------------------------
    def new_cell(self, s, node, xs):
        n = 0
        while (mk("obj", "cell", (id(node), n)), ITEMS) in s.heap:
            n += 1
        c = mk("obj", "cell", (id(node), n))
        s = s.copy()
        s.heap[(c, ITEMS)] = mk("tuple", tuple(xs))
        return s, c

    def dict_of(self, t, s):
        h = s.heap.get((t, ITEMS)) if s is not None else None
        return {p.a[0][0]: p.a[0][1] for p in h.a[0]} if h is not None and h.k == "tuple" else None

    def set_dict(self, s, t, d):
        s = s.copy()
        s.heap[(t, ITEMS)] = mk("tuple", tuple(mk("tuple", (k, v)) for k, v in d.items()))
        return s

    def new_dict(self, s, node, pairs):
        n = 0
        while (mk("obj", "dictcell", (id(node), n)), ITEMS) in s.heap:
            n += 1
        t = mk("obj", "dictcell", (id(node), n))
        return self.set_dict(s, t, dict(pairs)), t

    def e_Dict(self, e, states, out):
        res = []
        for s, v in super().e_Dict(e, states, out):
            ps = []
            for k, x in v.a[1]:
                if k.k == "dstar":
                    d = self.dict_of(x, s) if is_dict(x) else None
                    ps = None if d is None or ps is None else ps + list(d.items())
                elif ps is not None:
                    ps.append((k, x))
            if ps is not None and all(is_const(k) for k, _ in ps):
                res.append(self.new_dict(s, e, ps))
            else:
                res.append((s, v))
        return res

    def _dict_call(self, e, s, t, m, args, out):
        d = self.dict_of(t, s)
        if d is None:
            return None
        if m == "items" and not args:
            return [(s, mk("tuple", tuple(mk("tuple", (k, v)) for k, v in d.items())))]
        if m == "keys" and not args:
            return [(s, mk("tuple", tuple(d)))]
        if m == "values" and not args:
            return [(s, mk("tuple", tuple(d.values())))]
        if m == "copy":
            return [self.new_dict(s, e, d.items())]
        if m in ("get", "pop", "setdefault") and args and is_const(args[0]):
            k = args[0]
            if k in d:
                v = d[k]
                if m == "pop":
                    d = {a: b for a, b in d.items() if a is not k}
                    s = self.set_dict(s, t, d)
                return [(s, v)]
            dv = args[1] if len(args) > 1 else NONE
            if m == "setdefault":
                d[k] = dv
                return [(self.set_dict(s, t, d), dv)]
            if m == "pop" and len(args) == 1:
                out.exc.append((s, mk("exc", "KeyError")))
                return []
            return [(s, dv)]
        return None

    def e_List(self, e, states, out):
        res = []
        for s, vs in self.evlist(e.elts, states, out):
            flat = []
            for v in vs:
                if v.k == "star":
                    x = self.expand(v.a[0], s)
                    if x is None:
                        flat = None
                        break
                    flat += x
                else:
                    flat.append(v)
            if flat is None:
                res.append((s, mk("list", id(e), tuple(vs))))
            else:
                res.append(self.new_cell(s, e, flat))
        return res

    def e_Tuple(self, e, states, out):
        res = []
        for s, v in super().e_Tuple(e, states, out):
            if any(x.k == "star" for x in v.a[0]):
                flat = []
                for x in v.a[0]:
                    y = self.expand(x.a[0], s) if x.k == "star" else [x]
                    flat = None if flat is None or y is None else flat + y
                if flat is not None:
                    v = mk("tuple", tuple(flat))
            res.append((s, v))
        return res

    def e_BinOp(self, e, states, out):
        res = []
        for s, v in super().e_BinOp(e, states, out):
            if v.k == "bin":
                op, a, b = v.a
                xa, xb = self.known(a, s), self.known(b, s)
                if op == "Add" and xa is not None and xb is not None:
                    s, v = self.new_cell(s, e, xa + xb) if is_cell(a) else (s, mk("tuple", tuple(xa + xb)))
                elif op == "Mult" and (xa is not None and is_const(b) or xb is not None and is_const(a)):
                    x, n, o = (xa, b.a[1], a) if xa is not None else (xb, a.a[1], b)
                    if isinstance(n, int) and n * len(x) <= 16:
                        s, v = self.new_cell(s, e, x * n) if is_cell(o) else (s, mk("tuple", tuple(x * n)))
                elif op in ("Mod", "FloorDiv") and is_const(a) and is_const(b) and isinstance(a.a[1], int) and isinstance(b.a[1], int) and b.a[1]:
                    v = const(a.a[1] % b.a[1] if op == "Mod" else a.a[1] // b.a[1])
            res.append((s, v))
        return res

    def s_AugAssign(self, n, states):
        """x += y is x = x + y here, and extends a list in place."""
        out = Out()
        rest = []
        from .flow import _as_load

        for s in states:
            for s1, old in self.ev(_as_load(n.target), [s], out):
                for s2, v in self.ev(n.value, [s1], out):
                    if is_const(old) and is_const(v) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(old.a[1], (int, float)) and isinstance(v.a[1], (int, float)):
                        r = const(old.a[1] + v.a[1] if isinstance(n.op, ast.Add) else old.a[1] - v.a[1])
                        out.fall += self.assign(n.target, r, s2, out, n)
                        continue
                    xs = self.expand(v, s2)
                    if is_cell(old) and isinstance(n.op, ast.Add) and xs is not None and self.known(old, s2) is not None:
                        s3 = s2.copy()
                        s3.heap[(old, ITEMS)] = mk("tuple", tuple(self.known(old, s2) + xs))
                        out.fall.append(s3)
                        continue
                    if isinstance(n.op, ast.BitOr) and is_const(old) and is_const(v) and isinstance(old.a[1], bool) and isinstance(v.a[1], bool):
                        out.fall += self.assign(n.target, const(old.a[1] | v.a[1]), s2, out, n)
                        continue
                    r = mk("aug", type(n.op).__name__, old, v)
                    s3 = self.hook_aug(s2, old, v, n)
                    out.fall += self.assign(n.target, r, s3, out, n)
        return out

    def assign(self, t, v, st, out, node):
        if isinstance(t, ast.Subscript):
            res = []
            for s, b in self.ev(t.value, [st], out):
                if is_dict(b) and self.dict_of(b, s) is not None:
                    for s2, i in self.ev(t.slice, [s], out):
                        s2 = self.c.on_store_item(self, s2, b, i, v, node)
                        if s2 is None:
                            continue
                        if is_const(i):
                            d = self.dict_of(b, s2)
                            d[i] = v
                            res.append(self.set_dict(s2, b, d))
                        else:
                            s2 = s2.copy()
                            s2.heap.pop((b, ITEMS), None)
                            res.append(s2)
                    continue
                if not is_cell(b) or self.known(b, s) is None:
                    return super().assign(t, v, st, out, node)
                for s2, i in self.ev(t.slice, [s], out):
                    s2 = self.c.on_store_item(self, s2, b, i, v, node)
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    xs = self.known(b, s2)
                    if is_const(i) and isinstance(i.a[1], int):
                        if -len(xs) <= i.a[1] < len(xs):
                            xs[i.a[1]] = v
                            s2.heap[(b, ITEMS)] = mk("tuple", tuple(xs))
                            res.append(s2)
                        else:
                            out.exc.append((s2, mk("exc", "IndexError")))
                    else:
                        s2.heap.pop((b, ITEMS), None)
                        res.append(s2)
            return res
        if isinstance(t, (ast.Tuple, ast.List)) and is_cell(v) and self.known(v, st) is not None:
            v = mk("tuple", tuple(self.known(v, st)))
        return super().assign(t, v, st, out, node)

    def e_Subscript(self, e, states, out):
        res = []
        for s, b in self.ev(e.value, states, out):
            for s2, i in self.ev(e.slice, [s], out):
                if is_dict(b) and self.dict_of(b, s2) is not None and is_const(i):
                    d = self.dict_of(b, s2)
                    if i in d:
                        res.append((s2, d[i]))
                    else:
                        out.exc.append((s2, mk("exc", "KeyError")))
                    continue
                if is_cell(b) and self.known(b, s2) is not None:
                    xs = self.known(b, s2)
                    if is_const(i) and isinstance(i.a[1], int):
                        if -len(xs) <= i.a[1] < len(xs):
                            res.append((s2, xs[i.a[1]]))
                        else:
                            out.exc.append((s2, mk("exc", "IndexError")))
                        continue
                    if i.k == "slice" and all(is_const(x) for x in i.a):
                        res.append(self.new_cell(s2, e, xs[slice(*[y.a[1] for y in i.a])]))
                        continue
                h = s2.heap.get((b, i))
                t = h if h is not None else self.item_of(b, i, s2)
                s2 = self.c.on_load(self, s2, t, e)
                res.append((s2, t))
        return res

    def do_call(self, e, s, fn, args, kws, out, raising=False, with_ctx=False):
        if fn.k == "g" and fn.a[0] in ("any", "all") and len(args) == 1 and args[0].k == "lazygen" and len(self.gens[args[0]].generators) == 1:
            g = s.copy()
            g.env = {**s.env, **dict(args[0].a[1])}
            r = self._lazy(fn.a[0], self.gens[args[0]], g, out)
            if r is not None:
                return [(self._restore(x, s.env), v) for x, v in r]
        if any(a.k == "lazygen" or a.k == "star" and a.a[0].k == "lazygen" for a in args):
            res = []
            for s2, vs in self.force_all(s, [a.a[0] if a.k == "star" else a for a in args], out):
                vs = [mk("star", v) if a.k == "star" else v for a, v in zip(args, vs)]
                res += self.do_call(e, s2, fn, vs, kws, out, raising, with_ctx)
            return res
        flat = []
        for a in args:
            x = self.expand(a.a[0], s) if a.k == "star" else None
            flat += x if x is not None else [a]
        args = flat
        if fn.k == "g" and fn.a[0] in ("map", "filter") and len(args) == 2 and not kws:
            xs = self.expand(args[1], s)
            if xs is not None:
                cur = [(s, [])]
                for x in xs:
                    nxt = []
                    for s1, vs in cur:
                        for s2, v in self.do_call(e, s1, args[0], [x], [], out) if args[0] is not NONE else [(s1, x)]:
                            if fn.a[0] == "map":
                                nxt.append((s2, vs + [v]))
                            else:
                                ts, fs = [], []
                                self.split(s2, v, ts, fs, e)
                                nxt += [(y, vs + [x]) for y in ts] + [(y, vs) for y in fs]
                    cur = nxt
                return [(s1, mk("tuple", tuple(vs))) for s1, vs in cur]
        if fn.k == "attr" and is_dict(fn.a[0]) and not kws:
            r = self._dict_call(e, s, fn.a[0], fn.a[1], args, out)
            if r is not None:
                return r
        if fn.k == "attr" and is_cell(fn.a[0]) and fn.a[1] in MUTATORS and self.known(fn.a[0], s) is not None and all(k in ("index",) for k, _ in kws):
            r = self._mutate(e, s, fn.a[0], fn.a[1], args, out)
            if r is not None:
                return r
        if fn.k == "g" and fn.a[0] == "dict" and len(args) <= 1 and not any(k == "**" for k, _ in kws):
            d = {} if not args else self.dict_of(args[0], s) if is_dict(args[0]) else None
            if args and d is None and self.expand(args[0], s) is not None and all(x.k == "tuple" and len(x.a[0]) == 2 and is_const(x.a[0][0]) for x in self.expand(args[0], s)):
                d = {x.a[0][0]: x.a[0][1] for x in self.expand(args[0], s)}
            if d is not None:
                d = {**d, **{const(k): v for k, v in kws}}
                return [self.new_dict(s, e, d.items())]
        if fn.k == "attr" and fn.a[1] == "update" and is_dict(fn.a[0]) and self.dict_of(fn.a[0], s) is not None and len(args) <= 1 and not any(k == "**" for k, _ in kws):
            d = self.dict_of(fn.a[0], s)
            e2 = {} if not args else self.dict_of(args[0], s) if is_dict(args[0]) else None
            if e2 is not None:
                return [(self.set_dict(s, fn.a[0], {**d, **e2, **{const(k): v for k, v in kws}}), NONE)]
        if fn.k == "g" and fn.a[0] == "list" and len(args) <= 1 and not kws:
            xs = self.expand(args[0], s) if args else []
            if xs is not None:
                return [self.new_cell(s, e, xs)]
        return super().do_call(e, s, fn, args, kws, out, raising, with_ctx)

    def _mutate(self, e, s, c, m, args, out):
        xs = self.known(c, s)
        val = NONE
        if m == "append" and len(args) == 1:
            xs = xs + args
        elif m == "appendleft" and len(args) == 1:
            xs = args + xs
        elif m == "extend" and len(args) == 1:
            y = self.expand(args[0], s)
            if y is None:
                return None
            xs = xs + y
        elif m in ("pop", "popleft"):
            i = 0 if m == "popleft" else -1
            if args:
                if not (is_const(args[0]) and isinstance(args[0].a[1], int)):
                    return None
                i = args[0].a[1]
            if not -len(xs) <= i < len(xs):
                out.exc.append((s, mk("exc", "IndexError")))
                return []
            val = xs.pop(i)
        elif m == "insert" and len(args) == 2 and is_const(args[0]):
            xs.insert(args[0].a[1], args[1])
        elif m == "clear":
            xs = []
        elif m == "copy":
            s2, v = self.new_cell(s, e, xs)
            return [(s2, v)]
        elif m == "reverse":
            xs = xs[::-1]
        elif m in ("remove", "index") and len(args) == 1 and args[0] in xs:
            if m == "index":
                return [(s, const(xs.index(args[0])))]
            xs.remove(args[0])
        else:
            return None
        s = s.copy()
        s.heap[(c, ITEMS)] = mk("tuple", tuple(xs))
        return [(s, val)]

    def item_of(self, b, i, s):
        if i.k == "slice" and all(is_const(x) for x in i.a):
            x = self.expand(b, s)
            if x is not None:
                return mk("tuple", tuple(x[slice(*[y.a[1] for y in i.a])]))
        return super().item_of(b, i, s)

    def _truth(self, s, v):
        if v.k == "cmp" and v.a[0] == "in":
            x = self.expand(v.a[2], s)
            if x is not None:
                a = v.a[1]
                r = [True if y is a else (self.truth(s, mk("cmp", "is", y, NONE)) if a is NONE else (False if is_const(a) and is_const(y) else None)) for y in x]
                if any(t is True for t in r):
                    return True
                if None not in r:
                    return False
        if v.k == "isinst" and (v.a[0].k in ("tuple", "const", "new") or v.a[0].k == "obj"):
            r = _isinst(v.a[0], v.a[1])
            if r is not None:
                return r
        if (v.k in SEQ or is_cell(v) or is_dict(v)) and self.known(v, s) is not None:
            return bool(self.known(v, s))
        return super()._truth(s, v)


__all__ = ["SmallEngine", "seq", "phi"]
