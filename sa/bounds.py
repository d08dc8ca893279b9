"""Abstract interpretation of array shapes and indices (linear inequalities over sizes and counters).

Values are linear forms over symbols (array dimensions, loop counters, arguments), arrays with
symbolic shapes, tuples, or unknown. A state is a conjunction of linear inequalities; branches are
followed separately, loops are entered once with everything they modify generalised (counters keep
their recurrences). Entailment is decided by Fourier-Motzkin elimination with integer tightening.
"""

import ast
from fractions import Fraction
from math import floor, gcd

MAXSTATES = 400
DEPTH = 6


class TooHard(Exception):
    pass


# -- linear forms ------------------------------------------------------------------
class Lin:
    __slots__ = ("c", "k", "_key", "_r")

    def __init__(self, c=None, k=0):
        self.c = {s: v for s, v in (c or {}).items() if v != 0}
        self.k = Fraction(k)
        self._key = self._r = None

    @staticmethod
    def sym(s):
        return Lin({s: Fraction(1)})

    def __add__(self, o):
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + v
        return Lin(c, self.k + o.k)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, f):
        f = Fraction(f)
        return Lin({s: v * f for s, v in self.c.items()}, self.k * f)

    def const(self):
        return self.k if not self.c else None

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.c.items())), self.k)
        return self._key

    def __repr__(self):
        if self._r is None:
            self._r = self.text()
        return self._r

    def text(self):
        parts = []
        for s, v in sorted(self.c.items()):
            parts.append(f"{'+' if v > 0 else '-'} {'' if abs(v) == 1 else str(abs(v)) + '*'}{s}")
        if self.k or not parts:
            parts.append(f"{'+' if self.k >= 0 else '-'} {abs(self.k)}")
        t = " ".join(parts)
        return t[2:] if t.startswith("+ ") else t


def num(n):
    return Lin({}, n)


def tighten(l):
    """l >= 0 over integers: integer coefficients with gcd 1, constant rounded down."""
    den = 1
    for v in l.c.values():
        den = den * v.denominator // gcd(den, v.denominator)
    c = {s: v * den for s, v in l.c.items()}
    k = l.k * den
    g = 0
    for v in c.values():
        g = gcd(g, int(abs(v)))
    if g == 0:
        return Lin({}, k)
    return Lin({s: v / g for s, v in c.items()}, floor(k / g))


def infeasible(cons):
    """Are the constraints (each >= 0) contradictory?"""
    cons = {tighten(c).key(): tighten(c) for c in cons}
    cons = list(cons.values())
    for _ in range(60):
        live = []
        for c in cons:
            if not c.c:
                if c.k < 0:
                    return True
                continue
            live.append(c)
        cons = live
        if not cons:
            return False
        count = {}
        for c in cons:
            for s, v in c.c.items():
                p = count.setdefault(s, [0, 0])
                p[0 if v > 0 else 1] += 1
        s = min(count, key=lambda x: count[x][0] * count[x][1] - count[x][0] - count[x][1])
        pos = [c for c in cons if c.c.get(s, 0) > 0]
        neg = [c for c in cons if c.c.get(s, 0) < 0]
        rest = [c for c in cons if s not in c.c]
        new = {}
        for p in pos:
            for n in neg:
                q = tighten(p.scale(1 / p.c[s]) + n.scale(-1 / n.c[s]))
                new.setdefault(tuple(sorted(q.c.items())), []).append(q.k)
        for c in rest:
            new.setdefault(tuple(sorted(c.c.items())), []).append(c.k)
        cons = [Lin(dict(k), min(v)) for k, v in new.items()]
        if len(cons) > 600:
            return False
    return False


def relevant(cons, seeds):
    seen = set(seeds)
    out = []
    left = list(cons)
    grew = True
    while grew:
        grew = False
        nxt = []
        for c in left:
            if seen & set(c.c):
                out.append(c)
                seen |= set(c.c)
                grew = True
            else:
                nxt.append(c)
        left = nxt
    return out


# -- values ------------------------------------------------------------------------
class Val:
    pass


class Unknown(Val):
    def __repr__(self):
        return "?"


class Scan(Val):
    """A counter moved by a loop that stops on the data."""

    def __repr__(self):
        return "<data-dependent>"


UNK, SCAN = Unknown(), Scan()


class Arr(Val):
    """items: shape as a list of Lin and ("pre", S) (all but the last axis of an array of unknown rank)."""

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return f"array{self.items}"


class ShapeV(Val):
    def __init__(self, items):
        self.items = items


class Tup(Val):
    def __init__(self, elts):
        self.elts = elts


class Ptr(Val):
    def __init__(self, avail):
        self.avail = avail


class Obj(Val):
    """An argument of unknown kind (maybe an array, maybe a sequence)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class St:
    def __init__(self):
        self.env = {}
        self.cons = []
        self.alias = {}
        self.ndim = {}
        self.unchecked = False
        self.wrap = True

    def copy(self):
        s = St()
        s.env, s.cons, s.alias, s.ndim = dict(self.env), list(self.cons), dict(self.alias), dict(self.ndim)
        s.unchecked, s.wrap = self.unchecked, self.wrap
        return s

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.env.items())), frozenset(repr(c) for c in self.cons), tuple(sorted(self.alias.items())))

    def add(self, l):
        s = self.copy()
        s.cons.append(l)
        return s

    def dead(self):
        return any(not c.c and c.k < 0 for c in self.cons)


class Site:
    def __init__(self, fn, line, what, ok, why="", chain=()):
        self.fn, self.line, self.what, self.ok, self.why, self.chain = fn, line, what, ok, why, chain


class Interp:
    def __init__(self, fns, resolve=None):
        self.fns = fns  # name -> cy.Fn
        self.n = 0
        self.sites = {}
        self.outside = set()
        self.file = "?"
        self.stack = []
        self.cache = {}
        self.prods = {}

    # -- symbols ---------------------------------------------------------------
    def fresh(self, base):
        self.n += 1
        return Lin.sym(f"{base}'{self.n}")

    def entails(self, s, goal):
        """goal >= 0 ?"""
        if goal.const() is not None:
            if goal.k >= 0:
                return True
        neg = num(-1) - goal
        return infeasible(relevant(s.cons, set(goal.c)) + [neg])

    def feasible(self, s):
        if s.dead():
            return False
        if len(s.cons) > 200:
            return True
        return not infeasible(s.cons)

    def canon(self, s, S):
        seen = set()
        while S in s.alias and S not in seen:
            seen.add(S)
            S = s.alias[S]
        return S

    def dim(self, s, S, k):
        """Dimension k of shape symbol S (state is extended with its sign)."""
        S = self.canon(s, S)
        nd = s.ndim.get(S)
        if nd is not None and k < 0:
            k += nd
        l = Lin.sym(f"{S}.shape[{k}]")
        if not any(c.key() == l.key() for c in s.cons):
            s.cons.append(l)
        return l

    def psize(self, s, S):
        l = Lin.sym(f"rows({self.canon(s, S)})")
        if not any(c.key() == l.key() for c in s.cons):
            s.cons.append(l)
        return l

    def set_ndim(self, s, S, n):
        S = self.canon(s, S)
        if s.ndim.get(S) == n:
            return
        s.ndim[S] = n
        for k in range(n):
            a, b = Lin.sym(f"{S}.shape[{k}]"), Lin.sym(f"{S}.shape[{k - n}]")
            s.cons += [a, a - b, b - a]
        rows = Lin.sym(f"rows({S})")
        lead = Lin.sym(f"{S}.shape[0]") if n == 2 else num(1) if n == 1 else None
        if lead is not None:
            s.cons += [rows - lead, lead - rows]
        elif self.entails(s, rows - num(1)):
            s.cons += [Lin.sym(f"{S}.shape[{k}]") - num(1) for k in range(n - 1)]

    def new_shape(self, s, base):
        self.n += 1
        S = f"{base}#{self.n}"
        return S

    def last(self, s, it):
        return it

    # items helper: an array of unknown shape S is [("pre", S), ("last", S)]
    def sym_items(self, S):
        return [("pre", S), ("last", S)]

    def dims(self, s, items, n):
        """The shape as n linear forms, or None."""
        if len(items) == 2 and isinstance(items[0], tuple) and isinstance(items[1], tuple) and items[0][0] == "pre":
            S = items[0][1]
            self.set_ndim(s, S, n)
            return [self.dim(s, S, k) for k in range(n)]
        if len(items) == 1 and isinstance(items[0], tuple) and items[0][0] == "T":
            d = self.dims(s, items[0][1], n)
            return None if d is None else d[::-1]
        if all(isinstance(i, Lin) for i in items):
            return list(items) if len(items) == n else None
        # one unknown block in between
        pre = [i for i in items if isinstance(i, tuple)]
        if len(pre) == 1:
            k = n - (len(items) - 1)
            out = []
            for i in items:
                if isinstance(i, Lin):
                    out.append(i)
                elif i[0] == "pre":
                    self.set_ndim(s, i[1], k + 1)
                    out += [self.dim(s, i[1], j) for j in range(k)]
                elif i[0] == "last":
                    out.append(self.dim(s, i[1], -1))
                else:
                    return None
            return out if len(out) == n else None
        return None

    def item_at(self, s, items, k):
        """items[k] as a linear form, or None."""
        if len(items) == 1 and isinstance(items[0], tuple) and items[0][0] == "T":
            return self.item_at(s, items[0][1], -1 - k)
        if len(items) == 2 and all(isinstance(i, tuple) for i in items) and items[0][0] == "pre":
            return self.dim(s, items[0][1], k)
        if all(isinstance(i, Lin) for i in items):
            return items[k] if -len(items) <= k < len(items) else None
        if k < 0:
            for j in range(-1, k - 1, -1):
                i = items[j] if -j <= len(items) else None
                if i is None:
                    return None
                if isinstance(i, tuple) and i[0] != "last":
                    return None
            i = items[k]
            return i if isinstance(i, Lin) else self.dim(s, i[1], -1)
        for j in range(k + 1):
            if j >= len(items) or isinstance(items[j], tuple):
                return None
        return items[k]

    def same(self, s, a, b):
        return self.entails(s, a - b) and self.entails(s, b - a)

    def factors(self, s, items):
        """Multiset of factors whose product is the number of elements."""
        if len(items) == 1 and isinstance(items[0], tuple) and items[0][0] == "T":
            return self.factors(s, items[0][1])
        out = []
        for i in items:
            if isinstance(i, tuple) and i[0] == "last":
                out.append(self.dim(s, i[1], -1))
            elif isinstance(i, tuple) and i[0] == "pre":
                out.append(self.psize(s, i[1]))
            else:
                out.append(i)
        return out

    def product(self, s, fs):
        fs = [f for f in fs if f.const() != 1]
        if not fs:
            return num(1)
        if len(fs) == 1:
            return fs[0]
        c = 1
        rest = []
        for f in fs:
            if f.const() is not None:
                c *= f.k
            else:
                rest.append(f)
        if len(rest) == 1:
            return rest[0].scale(c)
        name = "prod(" + ",".join(sorted(repr(f) for f in rest)) + ")"
        self.prods[name] = rest
        l = Lin.sym(name)
        s.cons.append(l)
        return l.scale(c)

    def reshape(self, s, items, dims):
        """dims: list of Lin, -1 given as None."""
        if sum(1 for d in dims if d is None) != 1:
            return list(dims) if None not in dims else None
        fs = self.factors(s, items)
        for d in dims:
            if d is None:
                continue
            for j, f in enumerate(fs):
                if self.same(s, f, d):
                    del fs[j]
                    break
            else:
                if d.const() == 1:
                    continue
                fs = None
                break
        mid = self.product(s, fs) if fs is not None else self.fresh("reshaped")
        s.cons.append(mid)
        for d in dims:
            if d is not None:
                s.cons.append(d - num(1))  # numpy refuses -1 together with an empty axis
        return [mid if d is None else d for d in dims]

    def as_arr(self, s, v, name="x"):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Obj):
            return Arr(self.sym_items(v.name))
        return Arr(self.sym_items(self.new_shape(s, name)))

    def unify(self, s, a, b):
        """The shapes a and b are equal."""
        A, B = self.base(a), self.base(b)
        if A and B:
            A, B = self.canon(s, A), self.canon(s, B)
            if A == B:
                return
            na, nb = s.ndim.get(A), s.ndim.get(B)
            s.alias[B] = A
            for k in (-1, 0, 1, 2, -2, -3):
                x, y = Lin.sym(f"{A}.shape[{k}]"), Lin.sym(f"{B}.shape[{k}]")
                s.cons += [x - y, y - x]
            x, y = Lin.sym(f"rows({A})"), Lin.sym(f"rows({B})")
            s.cons += [x - y, y - x]
            if na is None and nb is not None:
                self.set_ndim(s, A, nb)
            return
        for n in (len(a), len(b)):
            la, lb = a, b
            if all(isinstance(i, Lin) for i in la) and all(isinstance(i, Lin) for i in lb) and len(la) == len(lb):
                for x, y in zip(la, lb):
                    s.cons += [x - y, y - x]
                return
        # one known, one symbolic
        known, other = (a, b) if all(isinstance(i, Lin) for i in a) else (b, a)
        if all(isinstance(i, Lin) for i in known):
            d = self.dims(s, other, len(known))
            if d:
                for x, y in zip(d, known):
                    s.cons += [x - y, y - x]

    def base(self, items):
        if len(items) == 2 and all(isinstance(i, tuple) for i in items) and items[0][0] == "pre":
            return items[0][1]
        return None

    # -- coercion at typed boundaries ---------------------------------------------
    def coerce(self, s, v, ct, name):
        if ct is None:
            return v
        if ct.kind in ("view", "buffer"):
            if isinstance(v, (Arr, Obj)) or v is UNK:
                a = self.as_arr(s, v, name)
                d = self.dims(s, a.items, ct.ndim)
                if d is None:
                    S = self.new_shape(s, name)
                    d = self.dims(s, self.sym_items(S), ct.ndim)
                return Arr(d)
            return Arr(self.dims(s, self.sym_items(self.new_shape(s, name)), ct.ndim))
        if ct.kind == "scalar" and ct.name in ("int", "long", "Py_ssize_t", "size_t", "short", "intp_t", "int64_t", "int32_t"):
            if isinstance(v, (Lin, Scan)):
                return v
            l = self.fresh(name)
            if ct.name == "size_t":
                s.cons.append(l)
            return l
        if ct.kind == "array":
            if isinstance(v, Ptr):
                return v
            return Ptr(num(ct.length) if ct.length is not None else self.fresh(f"len({name})"))
        if ct.kind == "scalar":
            return UNK
        return v

    # -- expressions ----------------------------------------------------------------
    def ev(self, e, s):
        """[(state, value)]"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    r = self.ev(c, s)
                    s = r[0][0] if r else s
            return [(s, UNK)]
        return m(e, s)

    def evs(self, es, s):
        out = [(s, [])]
        for e in es:
            nxt = []
            for s1, vs in out:
                for s2, v in self.ev(e, s1):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_Constant(self, e, s):
        if isinstance(e.value, bool) or not isinstance(e.value, int):
            return [(s, UNK)]
        return [(s, num(e.value))]

    def e_Name(self, e, s):
        return [(s, s.env.get(e.id, UNK))]

    def e_Starred(self, e, s):
        return [(s1, UNK) for s1, _ in self.ev(e.value, s)]

    def e_Tuple(self, e, s):
        return [(s1, Tup(vs)) for s1, vs in self.evs(e.elts, s)]

    e_List = e_Tuple

    def e_UnaryOp(self, e, s):
        out = []
        for s1, v in self.ev(e.operand, s):
            if isinstance(e.op, ast.USub) and isinstance(v, Lin):
                v = v.scale(-1)
            elif isinstance(e.op, ast.UAdd):
                pass
            elif isinstance(v, Scan):
                pass
            else:
                v = UNK
            out.append((s1, v))
        return out

    def e_BinOp(self, e, s):
        out = []
        for s1, (a, b) in self.evs([e.left, e.right], s):
            out.append((s1, self.arith(s1, e.op, a, b)))
        return out

    def arith(self, s, op, a, b):
        if isinstance(a, Scan) or isinstance(b, Scan):
            return SCAN if isinstance(a, (Scan, Lin)) and isinstance(b, (Scan, Lin)) else UNK
        if isinstance(op, ast.Add) and isinstance(a, (Tup, ShapeV)) and isinstance(b, (Tup, ShapeV)):
            def its(v):
                if isinstance(v, ShapeV):
                    return v.items
                return v.elts if all(isinstance(x, Lin) for x in v.elts) else None
            x, y = its(a), its(b)
            return ShapeV(list(x) + list(y)) if x is not None and y is not None else UNK
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return UNK
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            if a.const() is not None:
                return b.scale(a.k)
            if b.const() is not None:
                return a.scale(b.k)
            l = Lin.sym("prod(" + ",".join(sorted((repr(a), repr(b)))) + ")")
            if self.entails(s, a) and self.entails(s, b):
                s.cons.append(l)
            return l
        if isinstance(op, ast.FloorDiv) and b.const() is not None and b.k > 0:
            q = Lin.sym(f"({a!r})//{b.k}")
            s.cons += [a - q.scale(b.k), q.scale(b.k) + num(b.k - 1) - a]
            return q
        if isinstance(op, ast.Mod) and b.const() is not None and b.k > 0:
            q = self.fresh("mod")
            s.cons += [q, num(b.k - 1) - q]
            return q
        if isinstance(op, ast.RShift) and b.const() is not None and 0 <= b.k < 31:
            d = Fraction(2) ** int(b.k)
            q = Lin.sym(f"({a!r})//{d}")
            s.cons += [a - q.scale(d), q.scale(d) + num(d - 1) - a]
            return q
        return UNK

    def e_IfExp(self, e, s):
        out = []
        for s1 in self.assume(e.test, s, True):
            out += self.ev(e.body, s1)
        for s1 in self.assume(e.test, s, False):
            out += self.ev(e.orelse, s1)
        return out

    def e_BoolOp(self, e, s):
        # operands may index: later ones only under the earlier ones
        for b in (True, False):
            self.assume(e, s, b)
        return [(s, UNK)]

    def e_Compare(self, e, s):
        r = self.evs([e.left, *e.comparators], s)
        return [(s1, UNK) for s1, _ in r]

    def e_NamedExpr(self, e, s):
        out = []
        for s1, v in self.ev(e.value, s):
            s1 = s1.copy()
            s1.env[e.target.id] = v
            out.append((s1, v))
        return out

    def e_Attribute(self, e, s):
        out = []
        for s1, v in self.ev(e.value, s):
            out.append((s1, self.attr(s1, v, e.attr)))
        return out

    def attr(self, s, v, a):
        if a in ("shape", "local_shape", "global_shape") and a == "shape" and isinstance(v, (Arr, Obj)):
            return ShapeV(self.as_arr(s, v).items)
        if a == "size" and isinstance(v, (Arr, Obj)):
            return self.product(s, self.factors(s, self.as_arr(s, v).items))
        if a == "ndim" and isinstance(v, (Arr, Obj)):
            its = self.as_arr(s, v).items
            if all(isinstance(i, Lin) for i in its):
                return num(len(its))
            B = self.base(its)
            if B and s.ndim.get(self.canon(s, B)) is not None:
                return num(s.ndim[self.canon(s, B)])
            return Lin.sym(f"ndim({self.canon(s, B)})") if B else UNK
        if a == "T" and isinstance(v, (Arr, Obj)):
            its = self.as_arr(s, v).items
            if all(isinstance(i, Lin) for i in its):
                return Arr(its[::-1])
            return Arr([("T", its)])
        if a in ("real", "imag") and isinstance(v, (Arr, Obj)):
            return v
        if a == "base" and isinstance(v, Arr):
            return v
        return UNK

    def e_Subscript(self, e, s):
        out = []
        if isinstance(e.slice, ast.Slice):
            for s1, b in self.ev(e.value, s):
                out.append((s1, self.slice_of(s1, b, e.slice)))
            return out
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if any(isinstance(i, ast.Slice) or (isinstance(i, ast.Constant) and i.value is Ellipsis) for i in idx):
            for s1, b in self.ev(e.value, s):
                for i in idx:
                    if not isinstance(i, ast.Slice):
                        for s2, _ in self.ev(i, s1):
                            s1 = s2
                out.append((s1, UNK))
            return out
        for s1, b in self.ev(e.value, s):
            for s2, vs in self.evs(idx, s1):
                out.append((s2, self.index(s2, e, b, vs)))
        return out

    def slice_of(self, s, b, sl):
        if isinstance(b, ShapeV):
            lo = sl.lower.value if isinstance(sl.lower, ast.Constant) else (None if sl.lower is None else "?")
            up = sl.upper
            minus1 = isinstance(up, ast.Constant) and up.value == -1 or (
                isinstance(up, ast.UnaryOp) and isinstance(up.op, ast.USub) and isinstance(up.operand, ast.Constant) and up.operand.value == 1
            )
            if sl.step is None and lo is None and minus1:
                its = b.items
                if its and not (len(its) == 1 and isinstance(its[0], tuple)):
                    return ShapeV(list(its[:-1]))
        return UNK

    def typed(self, name):
        f = self.stack[-1] if self.stack else None
        ct = f.types.get(name) if f is not None else None
        return ct

    def index(self, s, e, b, vs):
        if isinstance(b, ShapeV):
            v = vs[0]
            if isinstance(v, Lin) and v.const() is not None and len(vs) == 1:
                r = self.item_at(s, b.items, int(v.k))
                if r is not None:
                    return r
            return self.fresh("dim")
        if isinstance(b, Tup):
            v = vs[0]
            if isinstance(v, Lin) and v.const() is not None and -len(b.elts) <= v.k < len(b.elts):
                return b.elts[int(v.k)]
            return UNK
        if isinstance(b, Obj):
            v = vs[0]
            if isinstance(v, Lin) and v.const() is not None and len(vs) == 1:
                return Lin.sym(f"{b.name}[{v.k}]")
            return UNK
        name = e.value.id if isinstance(e.value, ast.Name) else None
        ct = self.typed(name) if name else None
        if isinstance(b, Ptr):
            self.check(s, e, f"{name or '*'}", [b.avail], vs, wrap=False)
            return UNK
        if isinstance(b, Arr) and ct is not None and ct.kind in ("view", "buffer") and s.unchecked:
            d = b.items
            if all(isinstance(i, Lin) for i in d):
                if len(vs) == len(d):
                    self.check(s, e, name, d, vs, wrap=s.wrap)
                    return UNK
                if len(vs) < len(d):
                    self.check(s, e, name, d[: len(vs)], vs, wrap=s.wrap)
                    return Arr(list(d[len(vs):]))
        return UNK

    def check(self, s, e, name, dims, vs, wrap):
        fn = self.stack[-1]
        for k, (v, d) in enumerate(zip(vs, dims)):
            text = f"{ast.unparse(e)} axis {k}"
            key = (fn.file, fn.name, e.lineno, text)
            if isinstance(v, Scan):
                self.outside.add(key)
                continue
            if not isinstance(v, Lin):
                self.note(key, False, "the index is not a known function of sizes and counters", s)
                continue
            lo = v + d if wrap else v
            okl = self.entails(s, lo)
            oku = self.entails(s, d - num(1) - v)
            if okl and oku:
                self.note(key, True, "", s)
            else:
                side = "below the start" if not okl else "beyond the end"
                self.note(key, False, f"index {v!r} can lie {side} of the axis of length {d!r}", s)

    def note(self, key, ok, why, s):
        chain = tuple(f.name for f in self.stack)
        old = self.sites.get(key)
        if old is None or (old[0] and not ok):
            self.sites[key] = (ok, why, chain)

    # -- calls -------------------------------------------------------------------
    def e_Call(self, e, s):
        f = e.func
        fname = None
        if isinstance(f, ast.Name):
            fname = f.id
        elif isinstance(f, ast.Subscript) and isinstance(f.value, ast.Name):
            fname = f.value.id
        if fname == "__addr__" and isinstance(e.args[0], ast.Subscript) and isinstance(e.args[0].value, ast.Name):
            sub = e.args[0]
            idx = sub.slice.elts if isinstance(sub.slice, ast.Tuple) else [sub.slice]
            out = []
            for s1, b in self.ev(sub.value, s):
                for s2, vs in self.evs(idx, s1):
                    self.index(s2, sub, b, vs)
                    if isinstance(b, Arr) and len(vs) == len(b.items) and all(isinstance(i, Lin) for i in b.items) and isinstance(vs[-1], Lin):
                        out.append((s2, Ptr(b.items[-1] - vs[-1])))
                    elif isinstance(b, Ptr) and isinstance(vs[-1], Lin):
                        out.append((s2, Ptr(b.avail - vs[-1])))
                    else:
                        out.append((s2, UNK))
            return out
        out = []
        recv = [(s, None)]
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, s)
        for s0, r in recv:
            for s1, vs in self.evs([a for a in e.args], s0):
                cur = [(s1, {})]
                for kw in e.keywords:
                    nxt = []
                    for s2, kv in cur:
                        for s3, v in self.ev(kw.value, s2):
                            nxt.append((s3, {**kv, kw.arg: v}))
                    cur = nxt
                for s2, kv in cur:
                    out += self.call(e, f, fname, r, vs, kv, s2)
        return out

    def call(self, e, f, fname, r, vs, kv, s):
        starred = any(isinstance(a, ast.Starred) for a in e.args)
        if isinstance(f, ast.Name) or (isinstance(f, ast.Subscript) and fname in self.fns):
            if fname in self.fns and not starred:
                return self.inline(self.fns[fname], vs, kv, s, e)
            if fname == "len" and vs:
                v = vs[0]
                if isinstance(v, Tup):
                    return [(s, num(len(v.elts)))]
                if isinstance(v, (Arr, Obj)):
                    s = s.copy()
                    l = self.item_at(s, self.as_arr(s, v).items, 0)
                    if l is not None:
                        s.cons.append(l)
                        return [(s, l)]
                l = self.fresh("len")
                return [(s.add(l), l)]
            if fname in ("min", "max") and len(vs) >= 2 and all(isinstance(v, Lin) for v in vs):
                out = []
                for k, v in enumerate(vs):
                    s1 = s.copy()
                    for j, w in enumerate(vs):
                        if j != k:
                            s1.cons.append((w - v) if fname == "min" else (v - w))
                    if self.feasible(s1):
                        out.append((s1, v))
                return out
            if fname in ("min", "max") and any(isinstance(v, Scan) for v in vs):
                return [(s, SCAN)]
            if fname == "abs" and vs and isinstance(vs[0], Lin):
                a, b = s.add(vs[0]), s.add(vs[0].scale(-1))
                return [(x, v) for x, v in ((a, vs[0]), (b, vs[0].scale(-1))) if self.feasible(x)]
            if fname == "int" and vs and isinstance(vs[0], (Lin, Scan)):
                return [(s, vs[0])]
            if fname in ("tuple", "list") and vs and isinstance(vs[0], (Tup, ShapeV, Obj)):
                return [(s, vs[0])]
            if fname == "reversed" and vs:
                v = vs[0]
                if isinstance(v, Tup):
                    return [(s, Tup(v.elts[::-1]))]
                if isinstance(v, Obj):
                    return [(s, Tup([Lin.sym(f"{v.name}[1]"), Lin.sym(f"{v.name}[0]")]))]
                return [(s, UNK)]
            return [(s, UNK)]
        if isinstance(f, ast.Attribute):
            m = f.attr
            owner = f.value.id if isinstance(f.value, ast.Name) else None
            if owner in ("np", "numpy"):
                return [self.npcall(m, vs, kv, s)]
            if isinstance(r, (Arr, Obj)):
                return [self.method(m, r, vs, kv, s)]
        return [(s, UNK)]

    def shape_arg(self, v):
        if isinstance(v, Lin):
            return [v]
        if isinstance(v, Tup):
            return list(v.elts) if all(isinstance(x, Lin) for x in v.elts) else None
        if isinstance(v, ShapeV):
            return list(v.items)
        return None

    def npcall(self, m, vs, kv, s):
        s = s.copy()
        a = vs[0] if vs else kv.get("shape", UNK)
        if m in ("empty", "zeros", "ones", "full", "ndarray"):
            its = self.shape_arg(kv.get("shape", a))
            if its is not None:
                for i in its:
                    if isinstance(i, Lin):
                        s.cons.append(i)
                return s, Arr(its)
            return s, UNK
        if m in ("empty_like", "zeros_like", "ones_like", "full_like", "ascontiguousarray", "asfortranarray", "asarray", "asanyarray", "copy", "abs",
                 "require", "array"):
            if m in ("array", "asarray", "asanyarray") and not isinstance(a, Arr):
                # a sequence: the result is an array of some shape
                if isinstance(a, Obj) and m != "array":
                    return s, Arr(self.sym_items(a.name))
                return s, Arr(self.sym_items(self.new_shape(s, "array")))
            if isinstance(a, (Arr, Obj)):
                return s, self.as_arr(s, a)
        if m in ("ravel",) and isinstance(a, (Arr, Obj)):
            return s, Arr([self.product(s, self.factors(s, self.as_arr(s, a).items))])
        if m == "reshape" and isinstance(a, (Arr, Obj)) and len(vs) > 1:
            return self.method("reshape", a, vs[1:], kv, s)
        if m == "atleast_1d":
            return s, UNK
        return s, UNK

    def method(self, m, r, vs, kv, s):
        s = s.copy()
        arr = self.as_arr(s, r)
        if m in ("copy", "astype", "view", "conj", "conjugate", "round", "byteswap"):
            return s, arr
        if m in ("ravel", "flatten"):
            return s, Arr([self.product(s, self.factors(s, arr.items))])
        if m == "reshape":
            dims = vs
            if len(vs) == 1 and isinstance(vs[0], (Tup, ShapeV)):
                if isinstance(vs[0], ShapeV):
                    return s, Arr(list(vs[0].items))
                dims = vs[0].elts
            if all(isinstance(d, Lin) for d in dims):
                d2 = [None if d.const() == -1 else d for d in dims]
                its = self.reshape(s, arr.items, d2)
                if its is not None:
                    return s, Arr(its)
            return s, UNK
        if m == "transpose" and not vs:
            return s, self.attr(s, r, "T")
        return s, UNK

    def inline(self, fn, vs, kv, s, e=None):
        if len(self.stack) > DEPTH or fn in self.stack:
            return [(s, UNK)]
        saved = (s.env, s.unchecked, s.wrap)
        s = s.copy()
        env = {}
        for i, a in enumerate(fn.args):
            v = vs[i] if i < len(vs) else kv.get(a, UNK)
            env[a] = self.coerce(s, v, fn.types.get(a), a)
        key = None
        if all(not isinstance(v, Tup) for v in env.values()):
            key = (fn.name, tuple(sorted((k, type(v).__name__, repr(v) if not isinstance(v, Ptr) else repr(v.avail)) for k, v in env.items() if not isinstance(v, ShapeV))),
                   frozenset(repr(c) for c in s.cons), tuple(sorted(s.alias.items())), tuple(sorted(s.ndim.items())))
            if any(isinstance(v, ShapeV) for v in env.values()):
                key = None
        if key is not None and key in self.cache:
            res = []
            for st, v in self.cache[key]:
                st = st.copy()
                st.env, st.unchecked, st.wrap = dict(saved[0]), saved[1], saved[2]
                res.append((st, v))
            return res
        self.stack.append(fn)
        s.env = env
        s.unchecked = fn.directives.get("boundscheck") is False
        s.wrap = fn.directives.get("wraparound") is not False
        outs = self.body(fn.node.body, [s])
        self.stack.pop()
        res = []
        for kind, st, v in outs:
            if kind in ("next", "return"):
                st = st.copy()
                st.env, st.unchecked, st.wrap = dict(saved[0]), saved[1], saved[2]
                res.append((st, v if kind == "return" else UNK))
        seen, uniq = set(), []
        for st, v in res:
            k = (st.key(), repr(v) if not isinstance(v, Tup) else repr(v.elts))
            if k not in seen:
                seen.add(k)
                uniq.append((st, v))
        if key is not None:
            self.cache[key] = uniq
        return uniq

    # -- conditions ----------------------------------------------------------------
    def assume(self, e, s, truth):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, s, not truth)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == truth
            if conj:
                cur = [s]
                for v in e.values:
                    cur = [y for x in cur for y in self.assume(v, x, truth)]
                return cur
            out, cur = [], [s]
            for v in e.values:
                for x in cur:
                    out += self.assume(v, x, truth)
                cur = [y for x in cur for y in self.assume(v, x, not truth)]
            return out
        if isinstance(e, ast.Constant):
            return [s] if bool(e.value) == truth else []
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                parts, left = [], e.left
                for op, c in zip(e.ops, e.comparators):
                    n = ast.Compare(left=left, ops=[op], comparators=[c])
                    ast.copy_location(n, e)
                    parts.append(n)
                    left = c
                b = ast.BoolOp(op=ast.And(), values=parts)
                return self.assume(ast.copy_location(b, e), s, truth)
            out = []
            for s1, (a, b) in self.evs([e.left, e.comparators[0]], s):
                out += self.cmp(s1, e.ops[0], a, b, truth)
            return out
        out = []
        for s1, v in self.ev(e, s):
            if isinstance(v, Lin):
                out += self.cmp(s1, ast.NotEq(), v, num(0), truth)
            else:
                out.append(s1)
        return out

    def cmp(self, s, op, a, b, truth):
        if isinstance(a, ShapeV) and isinstance(b, (ShapeV, Tup)) or isinstance(b, ShapeV) and isinstance(a, Tup):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(op, ast.Eq) == truth:
                    s = s.copy()
                    x, y = (self.shape_arg(a), self.shape_arg(b))
                    if x is not None and y is not None:
                        self.unify(s, x, y)
                return [s]
            return [s]
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.elts) == len(b.elts) and isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(op, ast.Eq) == truth:
                cur = [s]
                for x, y in zip(a.elts, b.elts):
                    cur = [z for c in cur for z in self.cmp(c, ast.Eq(), x, y, True)]
                return cur
            return [s]
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, Lin) and isinstance(b, Tup) and all(isinstance(x, Lin) for x in b.elts):
            if isinstance(op, ast.In) == truth:
                return [y for x in b.elts for y in self.cmp(s, ast.Eq(), a, x, True)]
            cur = [s]
            for x in b.elts:
                cur = [y for c in cur for y in self.cmp(c, ast.Eq(), a, x, False)]
            return cur
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return [s]
        if isinstance(op, ast.NotEq):
            op, truth = ast.Eq(), not truth
        if isinstance(op, (ast.Is, ast.IsNot)):
            return [s]
        if isinstance(op, ast.Eq):
            cands = [[a - b, b - a]] if truth else [[a - b - num(1)], [b - a - num(1)]]
        elif isinstance(op, ast.Lt):
            cands = [[b - a - num(1)]] if truth else [[a - b]]
        elif isinstance(op, ast.LtE):
            cands = [[b - a]] if truth else [[a - b - num(1)]]
        elif isinstance(op, ast.Gt):
            cands = [[a - b - num(1)]] if truth else [[b - a]]
        elif isinstance(op, ast.GtE):
            cands = [[a - b]] if truth else [[b - a - num(1)]]
        else:
            return [s]
        out = []
        for c in cands:
            s1 = s.copy()
            s1.cons += c
            if truth and isinstance(op, ast.Eq):
                for x, y in ((a, b), (b, a)):
                    if len(x.c) == 1 and x.k == 0 and y.const() is not None:
                        (sym, v), = x.c.items()
                        if sym.startswith("ndim(") and v == 1:
                            self.set_ndim(s1, sym[5:-1], int(y.k))
            for l in c:  # a product that is at least one has no zero factor
                for sym in l.c:
                    if sym in self.prods and self.entails(s1, Lin.sym(sym) - num(1)):
                        s1.cons += [f - num(1) for f in self.prods[sym]]
            if self.feasible(s1):
                out.append(s1)
        return out

    # -- statements -----------------------------------------------------------------
    def body(self, stmts, states):
        """[(kind, state, value)] kind in next/return/raise/break/continue"""
        done = []
        cur = states
        for st in stmts:
            nxt = []
            for s in cur:
                for kind, s1, v in self.stmt(st, s):
                    (nxt if kind == "next" else done).append(s1 if kind == "next" else (kind, s1, v))
            cur = self.dedupe(nxt)
            if len(cur) > MAXSTATES:
                raise TooHard(f"too many paths at line {st.lineno}")
            if not cur:
                break
        return done + [("next", s, None) for s in cur]

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def stmt(self, n, s):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [("next", s, None)]
        return m(n, s)

    def s_Expr(self, n, s):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "__cdef__":
            s = s.copy()
            name = n.value.args[0].value
            ct = self.typed(name)
            s.env[name] = Ptr(num(ct.length)) if ct is not None and ct.kind == "array" and ct.length is not None else UNK
            return [("next", s, None)]
        return [("next", s1, None) for s1, _ in self.ev(n.value, s)]

    def assign(self, s, t, v):
        """[state]"""
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = self.coerce(s, v, self.typed(t.id), t.id) if not isinstance(v, (Lin, Scan, Ptr)) or self.typed(t.id) is None or self.typed(t.id).kind in ("view", "buffer") else v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = v.elts if isinstance(v, Tup) and len(v.elts) == len(t.elts) else [UNK] * len(t.elts)
            if isinstance(v, ShapeV):
                d = self.dims(s := s.copy(), v.items, len(t.elts))
                vals = d or vals
            cur = [s]
            for x, y in zip(t.elts, vals):
                cur = [z for c in cur for z in self.assign(c, x, y)]
            return cur
        return [s1 for s1, _ in self.ev(t, s)]

    def s_Assign(self, n, s):
        out = []
        for s1, v in self.ev(n.value, s):
            cur = [s1]
            for t in n.targets:
                cur = [z for c in cur for z in self.assign(c, t, v)]
            out += cur
        return [("next", x, None) for x in out]

    def s_AnnAssign(self, n, s):
        if n.value is None:
            return [("next", s, None)]
        return [("next", z, None) for s1, v in self.ev(n.value, s) for z in self.assign(s1, n.target, v)]

    def s_AugAssign(self, n, s):
        out = []
        for s1, v in self.ev(n.value, s):
            for s2, old in self.ev(n.target, s1):
                s2 = s2.copy()
                r = self.arith(s2, n.op, old, v)
                if isinstance(n.target, ast.Name):
                    out += self.assign(s2, n.target, r)
                else:
                    out.append(s2)
        return [("next", x, None) for x in out]

    def s_If(self, n, s):
        out = []
        for b, blk in ((True, n.body), (False, n.orelse)):
            for s1 in self.assume(n.test, s, b):
                out += self.body(blk, [s1]) if blk else [("next", s1, None)]
        return out

    def s_With(self, n, s):
        s0 = s
        s = s.copy()
        for it in n.items:
            c = it.context_expr
            d = ast.unparse(c).replace(" ", "")
            if d.endswith("boundscheck(False)"):
                s.unchecked = True
            elif d.endswith("boundscheck(True)"):
                s.unchecked = False
            elif d.endswith("wraparound(False)"):
                s.wrap = False
            elif d.endswith("wraparound(True)"):
                s.wrap = True
            else:
                r = self.ev(c, s)
                s = r[0][0].copy() if r else s
                if it.optional_vars is not None:
                    s = self.assign(s, it.optional_vars, UNK)[0]
        out = []
        for kind, s1, v in self.body(n.body, [s]):
            s1 = s1.copy()
            s1.unchecked, s1.wrap = s0.unchecked, s0.wrap
            out.append((kind, s1, v))
        return out

    def modified(self, stmts):
        out = {}
        for st in stmts:
            for n in ast.walk(st):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = [(t, None) for t in n.targets]
                elif isinstance(n, ast.AugAssign):
                    ts = [(n.target, n)]
                elif isinstance(n, (ast.For, ast.NamedExpr, ast.AnnAssign)):
                    ts = [(n.target, None)]
                for t, aug in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            out.setdefault(x.id, []).append(aug)
        return out

    def generalise(self, s, stmts, skip=(), counter=None):
        """Forget what the loop body changes, keeping recurrences."""
        s = s.copy()
        scans = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.While) and any(isinstance(x, ast.Subscript) for x in ast.walk(n.test)):
                    scans |= set(self.modified(n.body))
        top = {id(x) for x in stmts}
        for name, augs in self.modified(stmts).items():
            if name in skip:
                continue
            old = s.env.get(name, UNK)
            if name in scans or isinstance(old, Scan):
                s.env[name] = SCAN
                continue
            if isinstance(old, Lin):
                new = None
                steps = [(a.op, a.value) for a in augs if a is not None]
                cs = []
                for op, v in steps:
                    neg = False
                    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
                        v, neg = v.operand, True
                    if isinstance(v, ast.Constant) and isinstance(v.value, int) and isinstance(op, (ast.Add, ast.Sub)):
                        cs.append((-1 if isinstance(op, ast.Sub) else 1) * (-v.value if neg else v.value))
                    else:
                        cs = None
                        break
                allaug = all(a is not None for a in augs)
                if allaug and cs and counter is not None and len(augs) == 1 and id(augs[0]) in top and not self.escapes(stmts, augs[0]):
                    s.env[name] = old + (counter[0] - counter[1]).scale(cs[0])
                    continue
                new = self.fresh(name)
                if allaug and cs:
                    if all(c >= 0 for c in cs):
                        s.cons.append(new - old)
                    elif all(c <= 0 for c in cs):
                        s.cons.append(old - new)
                s.env[name] = new
            else:
                ct = self.typed(name)
                if isinstance(old, Arr) or (ct is not None and ct.kind in ("view", "buffer")):
                    s.env[name] = self.coerce(s, UNK, ct, name) if ct is not None else UNK
                elif ct is not None and ct.kind == "scalar" and old is not UNK:
                    s.env[name] = self.fresh(name)
                else:
                    s.env[name] = UNK
        # values that follow data-dependent counters
        changed = True
        while changed and scans:
            changed = False
            for st in stmts:
                for n in ast.walk(st):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        t = n.targets[0].id
                        if not isinstance(s.env.get(t), Scan) and any(isinstance(x, ast.Name) and isinstance(s.env.get(x.id), Scan) for x in ast.walk(n.value)):
                            if self.typed(t) is None or (self.typed(t).kind == "scalar" and self.typed(t).name in ("int", "long", "Py_ssize_t")):
                                s.env[t] = SCAN
                                changed = True
        return s

    def escapes(self, stmts, upto):
        """Does a `continue` come before the increment (so that it is sometimes skipped)?"""
        for st in stmts:
            if st is upto:
                return False
            for n in ast.walk(st):
                if isinstance(n, ast.Continue):
                    return True
        return False

    def s_For(self, n, s):
        out = []
        it = n.iter
        rng = isinstance(it, ast.Call) and isinstance(it.func, (ast.Name, ast.Attribute)) and (it.func.id if isinstance(it.func, ast.Name) else it.func.attr) in ("range", "prange", "xrange")
        exits = []
        if rng and isinstance(n.target, ast.Name):
            for s1, vs in self.evs(it.args, s):
                start, stop, step = (num(0), vs[0], num(1)) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else num(1))
                b = s1.copy()
                if isinstance(start, Scan) or isinstance(stop, Scan) or isinstance(step, Scan):
                    v = SCAN
                    g = self.generalise(b, n.body, skip={n.target.id})
                    for nm, augs in self.modified(n.body).items():
                        if isinstance(g.env.get(nm), Lin):
                            g.env[nm] = SCAN
                else:
                    v = self.fresh(n.target.id)
                    known = isinstance(start, Lin) and isinstance(stop, Lin) and isinstance(step, Lin) and step.const() is not None and step.k != 0
                    if known and step.k > 0:
                        b.cons += [v - start, stop - v - num(1)]
                    elif known:
                        b.cons += [start - v, v - stop - num(1)]
                    if not self.feasible(b):
                        exits.append(s1)
                        continue
                    g = self.generalise(b, n.body, skip={n.target.id}, counter=(v, start) if known and step.k == 1 else None)
                g.env[n.target.id] = v
                exits += self.loop_body(n, g, out)
                exits.append(self.after(n, s1, v))
        else:
            for s1, itv in self.ev(it, s):
                g = self.generalise(s1, n.body)
                g = self.assign(g, n.target, UNK)[0]
                exits += self.loop_body(n, g, out)
                a = self.generalise(s1, n.body)
                exits.append(self.assign(a, n.target, UNK)[0])
        res = []
        for x in self.dedupe(exits):
            res += self.body(n.orelse, [x]) if n.orelse else [("next", x, None)]
        return out + res

    def after(self, n, s, v):
        a = self.generalise(s, n.body)
        if isinstance(n.target, ast.Name):
            a.env[n.target.id] = SCAN if isinstance(v, Scan) else self.fresh(n.target.id)
        if isinstance(v, Scan):
            for nm in self.modified(n.body):
                if isinstance(a.env.get(nm), Lin):
                    a.env[nm] = SCAN
        return a

    def loop_body(self, n, g, out):
        ex = []
        for kind, s1, v in self.body(n.body, [g]):
            if kind == "break":
                ex.append(self.generalise(s1, n.body) if False else s1)
            elif kind in ("return", "raise"):
                out.append((kind, s1, v))
        return ex

    def s_While(self, n, s):
        out, exits = [], []
        data = any(isinstance(x, ast.Subscript) for x in ast.walk(n.test))
        # first iteration as it is, then generalised
        for first in (True, False):
            if first:
                g = s
                if data:
                    continue
            else:
                g = self.generalise(s, [n] if data else n.body)
            for s1 in self.assume(n.test, g, True):
                exits += self.loop_body(n, s1, out)
            exits += self.assume(n.test, g, False)
        res = []
        for x in self.dedupe(exits):
            res += self.body(n.orelse, [x]) if n.orelse else [("next", x, None)]
        return out + res

    def s_Return(self, n, s):
        if n.value is None:
            return [("return", s, UNK)]
        return [("return", s1, v) for s1, v in self.ev(n.value, s)]

    def s_Raise(self, n, s):
        return [("raise", s, None)]

    def s_Assert(self, n, s):
        return [("next", x, None) for x in self.assume(n.test, s, True)]

    def s_Break(self, n, s):
        return [("break", s, None)]

    def s_Continue(self, n, s):
        return [("continue", s, None)]

    def s_Try(self, n, s):
        out = []
        for kind, s1, v in self.body(n.body, [s]):
            if kind == "raise":
                continue
            out.append((kind, s1, v))
        for h in n.handlers:
            out += self.body(h.body, [self.generalise(s, n.body)])
        if n.finalbody:
            res = []
            for kind, s1, v in out:
                for k2, s2, v2 in self.body(n.finalbody, [s1]):
                    res.append((kind, s2, v) if k2 == "next" else (k2, s2, v2))
            out = res
        return out

    # -- entry ------------------------------------------------------------------------
    def run(self, fn):
        s = St()
        vs = []
        for a in fn.args:
            ct = fn.types.get(a)
            if ct is None or ct.kind == "object":
                vs.append(Obj(a))
            else:
                vs.append(UNK)
        self.inline(fn, vs, {}, s)
