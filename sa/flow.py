"""Structured forward dataflow over value-provenance terms, with monitors.

The engine walks a function's syntax tree, propagating a set of abstract states.
A state holds

* ``env``   local name -> provenance term (where the value came from),
* ``heap``  (object term, attribute or item) -> term,
* ``facts`` outcomes of tests on terms already taken on this path,
* ``mon``   the state of the client's monitor (any hashable).

States are partitioned by monitor value and path facts (trace partitioning) and
joined with phi terms when there are too many of them.  Loops run to a fixpoint with
widening of loop-carried names.  Every call may raise (unless the client says
otherwise), which is propagated to the enclosing handlers / finally blocks / context
managers.  Callees inside the repository are analysed in place (so that extracting a
helper does not change what the client sees), up to a depth.

No code is executed and no constraint is solved: tests are only looked up among the
facts recorded on the same path.
"""

from __future__ import annotations

import ast

from .core import ClassInfo, FuncInfo, Module, Repo, dotted, enclosing_class

# ---------------------------------------------------------------------------
# terms
# ---------------------------------------------------------------------------


class Term:
    __slots__ = ("k", "a", "d", "sites", "_leaves")

    def __init__(self, k, a):
        self.k = k
        self.a = a
        d = 0
        sites = frozenset()
        for x in a:
            if isinstance(x, Term):
                d = max(d, x.d)
                sites |= x.sites
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        d = max(d, y.d)
                        sites |= y.sites
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term):
                                d = max(d, z.d)
                                sites |= z.sites
            elif isinstance(x, frozenset):
                for y in x:
                    d = max(d, y.d)
                    sites |= y.sites
        if k == "call":
            sites |= {a[0]}
        self.d = d + 1
        self.sites = sites
        self._leaves = None

    def subs(self):
        for x in self.a:
            if isinstance(x, Term):
                yield x
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, Term):
                        yield y
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term):
                                yield z

    def walk(self):
        seen, stack = set(), [self]
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            yield t
            stack.extend(t.subs())

    def contains(self, other):
        return any(t is other for t in self.walk())

    def __repr__(self):
        return show(self)


_INTERN: dict = {}
MAXDEPTH = 14


def mk(k, *a):
    key = (k, a)
    try:
        t = _INTERN.get(key)
    except TypeError:
        key = (k, tuple(str(x) for x in a))
        t = _INTERN.get(key)
        a = key[1]
    if t is None:
        t = Term(k, a)
        if t.d > MAXDEPTH and k not in ("const", "param", "self", "g", "unk"):
            t = mk("unk", "deep", len(_INTERN))
        _INTERN[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.k == "const"


def is_class(t):
    return t.k == "g" and isinstance(t.a[0], ClassInfo)


def phi(terms):
    out = set()
    for t in terms:
        if t.k == "phi":
            out |= t.a[0]
        else:
            out.add(t)
    if len(out) == 1:
        return next(iter(out))
    if len(out) > 8:
        return mk("unk", "phi", len(_INTERN))
    return mk("phi", frozenset(out))


def alts(t):
    return list(t.a[0]) if t.k == "phi" else [t]


def show(t, depth=5):
    if not isinstance(t, Term):
        return repr(t)
    if depth == 0:
        return ".."
    k, a = t.k, t.a
    s = lambda x: show(x, depth - 1)
    if k == "const":
        return repr(a[1])
    if k == "param":
        return a[0]
    if k == "self":
        return "self"
    if k == "cls":
        return "cls"
    if k == "g":
        o = a[0]
        return getattr(o, "qualname", getattr(o, "name", o)) if not isinstance(o, str) else o
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "call":
        return f"{s(a[1])}({', '.join([s(x) for x in a[2]] + [f'{n}={s(v)}' for n, v in a[3]])})"
    if k == "new":
        return f"<{a[1].name}>"
    if k == "phi":
        return "(" + " | ".join(sorted(s(x) for x in a[0])) + ")"
    if k in ("cmp", "bin"):
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "un":
        return f"({a[0]} {s(a[1])})"
    if k in ("tuple",):
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if k in ("list", "set"):
        return "[" + ", ".join(s(x) for x in a[1]) + "]"
    if k == "loopvar":
        return f"{a[1]}*"
    if k == "iter":
        return f"each({s(a[0])})"
    return f"<{k}>"


# ---------------------------------------------------------------------------
# states
# ---------------------------------------------------------------------------


class State:
    __slots__ = ("env", "heap", "facts", "mon", "frame")

    def __init__(self, env, heap, facts, mon, frame=None):
        self.env, self.heap, self.facts, self.mon, self.frame = env, heap, facts, mon, frame

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.mon, self.frame)

    def with_mon(self, mon):
        s = self.copy()
        s.mon = mon
        return s

    def key(self):
        return (
            frozenset(self.env.items()),
            frozenset(self.heap.items()),
            frozenset(self.facts.items()),
            self.mon,
            self.frame,
        )


class Out:
    """Outcomes of a block: states by kind of exit."""

    __slots__ = ("fall", "ret", "exc", "brk", "cont")

    def __init__(self):
        self.fall = []  # State
        self.ret = []  # (State, Term)
        self.exc = []  # (State, exc Term)
        self.brk = []  # State
        self.cont = []  # State

    def absorb(self, o, fall=True):
        if fall:
            self.fall += o.fall
        self.ret += o.ret
        self.exc += o.exc
        self.brk += o.brk
        self.cont += o.cont


class Budget(Exception):
    pass


ANY_EXC = mk("exc", "any")

PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "hasattr", "callable", "id", "type", "repr", "str", "bool",
    "print", "range", "enumerate", "zip", "super", "locals", "globals", "tuple", "list", "dict", "set",
    "frozenset", "reversed", "iter",
}
PURE_EXT_PREFIX = ("os.path.", "logging.", "numpy.issubdtype", "warnings.")
# attributes fixed for the life of the object: opaque calls do not change them
STABLE_ATTRS = {"comm", "_comm", "rank", "size", "Get_rank", "Get_size", "rank0", "__class__", "dtype", "tzinfo"}
PURE_CALLS = {
    "len", "numpy.prod", "numpy.issubdtype", "numpy.dtype", "numpy.ndim", "min", "max", "abs", "int", "float", "str", "bool",
    "os.path.join", "os.path.split", "os.path.basename", "os.path.dirname", "os.path.abspath", "os.path.expandvars", "os.path.expanduser", "os.path.splitext", "os.fspath", "callable", "hasattr",
    "issubclass", "type", "numpy.isscalar", "id", "range", "enumerate", "zip", "sorted", "reversed",
    "inspect.isclass", "inspect.isfunction",
}
LOGGING_METHODS = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}


class Client:
    """Override what the property needs."""

    max_states = 24
    max_depth = 5
    assume_total = False  # True: calls never raise

    def initial(self, func):
        return None

    # call hook: return None for the default treatment, or a list of
    # (state, value term) normal outcomes, optionally as (normal, exceptional) where
    # exceptional is a list of states in which the call raised.
    def on_call(self, eng, st, node, fn, args, kwargs, callee):
        return None

    def on_store_attr(self, eng, st, base, attr, val, node):
        return st

    def on_store_item(self, eng, st, base, idx, val, node):
        return st

    def on_load_name(self, eng, st, name, val, node):
        return st

    def on_load(self, eng, st, term, node):
        return st

    def on_del(self, eng, st, target, node):
        return st

    def on_return(self, eng, st, val, node):
        return st

    def on_with(self, eng, st, term, node, enter):
        """Entering (enter=True) / leaving an opaque context manager."""
        return st

    def on_yield(self, eng, st, val, node):
        return st

    def on_rebind(self, eng, st, name, old, new, node):
        return st

    def on_branch(self, eng, st, term, taken, node):
        return st

    def on_loop_left(self, eng, st, it, node, entry):
        """The loop over `it` was left early (break or return); entry: the states before the loop."""
        return st

    def on_loop_zero(self, eng, st, it, node):
        """The for loop over `it` runs zero times."""
        return st

    def on_binop(self, eng, st, op, a, b, node):
        """An arithmetic operation or a comparison of two values."""

    def import_may_fail(self, eng, node):
        return True

    def inline(self, eng, callee, depth):
        return True

    def may_raise(self, eng, node, fn, callee):
        if self.assume_total:
            return False
        if fn.k == "g" and isinstance(fn.a[0], str):
            if fn.a[0] in PURE_BUILTINS or fn.a[0].startswith(PURE_EXT_PREFIX):
                return False
        if fn.k == "attr" and fn.a[1] in LOGGING_METHODS:
            return False
        return True


class Engine:
    def __init__(self, repo: Repo, client: Client):
        self.repo = repo
        self.c = client
        self.stack = []  # FuncInfo frames
        self.closures = {}  # Term -> (FuncInfo or Lambda node, env, owner FuncInfo)
        self.yield_handlers = []
        self.steps = 0
        self.max_steps = 400000
        self.functions_seen = set()
        self.calls_seen = 0

    # -- entry -----------------------------------------------------------------
    def run(self, func: FuncInfo, bind=None, self_cls=None, mon=None, heap=None):
        """Analyse `func` from symbolic parameters; returns Out (only ret / exc used)."""
        env = self.param_env(func, self_cls)
        if bind:
            env.update(bind)
        st = State(env, dict(heap or {}), {}, self.c.initial(func) if mon is None else mon)
        return self.run_body(func, [st])

    def param_env(self, func, self_cls=None):
        env = {}
        ps = func.all_params()
        for p in ps:
            env[p] = mk("param", p)
        cls = self_cls or enclosing_class(func)
        if func.is_method and ps and not func.is_static:
            if func.is_classmethod:
                env[ps[0]] = mk("cls", cls)
            else:
                env[ps[0]] = mk("self", cls)
        return env

    def run_body(self, func, states):
        self.functions_seen.add(func.qualname)
        self.stack.append(func)
        try:
            body = func.node.body if not isinstance(func.node, ast.Lambda) else None
            if body is None:
                out = Out()
                for st, v in self.ev(func.node.body, states, out):
                    out.ret.append((st, v))
                return out
            o = self.block(body, states)
            for s in o.fall:
                s2 = self.c.on_return(self, s, NONE, func.node) if len(self.stack) == 1 else s
                o.ret.append((s2, NONE))
            o.fall = []
            return o
        finally:
            self.stack.pop()

    @property
    def func(self):
        return self.stack[-1]

    @property
    def depth(self):
        return len(self.stack)

    # -- joins -----------------------------------------------------------------
    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.c.max_states:
            out = self.merge(out)
        return out

    @staticmethod
    def _uniq(states):
        return list({s.key(): s for s in states}.values())

    def merge(self, states):
        groups = {}
        for s in states:
            groups.setdefault((s.mon, s.frame), []).append(s)
        # first try: keep path facts apart as far as possible by merging states with equal facts
        out = []
        for g in groups.values():
            sub = {}
            for s in g:
                sub.setdefault(frozenset(s.facts.items()), []).append(s)
            for ss in sub.values():
                out.append(self._merge_group(ss))
        if len(out) > self.c.max_states:
            groups = {}
            for s in out:
                groups.setdefault((s.mon, s.frame), []).append(s)
            out = [self._merge_group(g) for g in groups.values()]
        if len(out) > 40 * self.c.max_states:
            raise Budget("too many monitor states")
        return out

    @staticmethod
    def _merge_group(ss):
        if len(ss) == 1:
            return ss[0]
        env, heap = {}, {}
        names = set().union(*[s.env for s in ss])
        for n in names:
            vs = [s.env.get(n, mk("unbound", n)) for s in ss]
            if any(v is not vs[0] for v in vs):
                vs = [_known(s, v) for s, v in zip(ss, vs)]
            env[n] = phi(vs)
        hk = set().union(*[s.heap for s in ss])
        for n in hk:
            vs = [s.heap.get(n) for s in ss]
            if any(v is None for v in vs):
                b, a = n
                vs = [v if v is not None else (mk("attr", b, a) if isinstance(a, str) else mk("item", b, a)) for v in vs]
            heap[n] = phi(vs)
        facts = dict(ss[0].facts)
        for s in ss[1:]:
            facts = {k: v for k, v in facts.items() if s.facts.get(k) == v}
        return State(env, heap, facts, ss[0].mon, ss[0].frame)

    def merge_exc(self, pairs):
        if len(pairs) <= self.c.max_states:
            seen, out = set(), []
            for s, e in pairs:
                k = (s.key(), e)
                if k not in seen:
                    seen.add(k)
                    out.append((s, e))
            return out
        by = {}
        for s, e in pairs:
            by.setdefault(e, []).append(s)
        return [(s, e) for e, ss in by.items() for s in self.merge(self.dedupe(ss))]

    def merge_ret(self, pairs):
        seen, out = set(), []
        for s, v in pairs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.c.max_states:
            groups = {}
            for s, v in out:
                groups.setdefault((s.mon, s.frame, frozenset(s.facts.items())), []).append((s, v))
            out = [(self._merge_group([s for s, _ in g]), phi([v for _, v in g])) for g in groups.values()]
            if len(out) > self.c.max_states:
                groups = {}
                for s, v in out:
                    groups.setdefault((s.mon, s.frame), []).append((s, v))
                out = [(self._merge_group([s for s, _ in g]), phi([v for _, v in g])) for g in groups.values()]
        return out

    # -- statements --------------------------------------------------------------
    def block(self, body, states):
        out = Out()
        cur = states
        for st in body:
            if not cur:
                break
            o = self.stmt(st, cur)
            out.absorb(o, fall=False)
            cur = self.dedupe(o.fall)
            if len(out.exc) > 3 * self.c.max_states:
                out.exc = self.merge_exc(out.exc)
        out.fall = cur
        out.ret = self.merge_ret(out.ret)
        out.exc = self.merge_exc(out.exc)
        return out

    def stmt(self, n, states):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            out = Out()
            out.fall = states
            return out
        return m(n, states)

    def s_Expr(self, n, states):
        out = Out()
        if isinstance(n.value, ast.Constant):
            out.fall = states
            return out
        for s, _ in self.ev(n.value, states, out):
            out.fall.append(s)
        return out

    def s_Assign(self, n, states):
        out = Out()
        if (
            len(n.targets) == 1
            and isinstance(n.targets[0], (ast.Tuple, ast.List))
            and isinstance(n.value, (ast.Tuple, ast.List))
            and len(n.targets[0].elts) == len(n.value.elts)
            and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts + n.value.elts)
        ):
            acc = self.evlist(n.value.elts, states, out)
            for s, vs in acc:
                cur = [s]
                for t, v in zip(n.targets[0].elts, vs):
                    cur = [x for c in cur for x in self.assign(t, v, c, out, n)]
                out.fall += cur
            return out
        for s, v in self.ev(n.value, states, out):
            cur = [s]
            for t in n.targets:
                cur = [x for c in cur for x in self.assign(t, v, c, out, n)]
            out.fall += cur
        return out

    def s_AnnAssign(self, n, states):
        out = Out()
        if n.value is None:
            out.fall = states
            return out
        for s, v in self.ev(n.value, states, out):
            out.fall += self.assign(n.target, v, s, out, n)
        return out

    def s_AugAssign(self, n, states):
        out = Out()
        tgt = n.target
        load = _as_load(tgt)
        for s, old in self.ev(load, states, out):
            for s2, v in self.ev(n.value, [s], out):
                r = mk("aug", type(n.op).__name__, old, v)
                s3 = self.hook_aug(s2, old, v, n)
                out.fall += self.assign(tgt, r, s3, out, n)
        return out

    def hook_aug(self, st, old, v, n):
        h = getattr(self.c, "on_aug", None)
        return h(self, st, old, v, n) if h else st

    def assign(self, t, v, st, out, node):
        if isinstance(t, ast.Name):
            s = st.copy()
            old = s.env.get(t.id)
            s.env[t.id] = v
            s = self.c.on_rebind(self, s, t.id, old, v, node)
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    val = mk("item", v, mk("slice", const(i), NONE, NONE))
                    e = e.value
                else:
                    val = self.item_of(v, const(i), None)
                cur = [x for c in cur for x in self.assign(e, val, c, out, node)]
            return cur
        if isinstance(t, ast.Attribute):
            res = []
            for s, b in self.ev(t.value, [st], out):
                s = self.c.on_store_attr(self, s, b, t.attr, v, node)
                if s is None:
                    continue
                # property setter in the repository?
                s = s.copy()
                s.heap[(b, t.attr)] = v
                self._drop_facts(s, mk("attr", b, t.attr))
                res.append(s)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, b in self.ev(t.value, [st], out):
                for s2, i in self.ev(t.slice, [s], out):
                    s2 = self.c.on_store_item(self, s2, b, i, v, node)
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    s2.heap[(b, i)] = v
                    if not is_const(i):
                        for k in [k for k in s2.heap if k[0] is b and isinstance(k[1], Term) and k[1] is not i]:
                            del s2.heap[k]
                    res.append(s2)
            return res
        return [st]

    @staticmethod
    def _drop_facts(s, term):
        dead = [k for k in s.facts if k is term or k.contains(term)]
        for k in dead:
            del s.facts[k]

    def s_Return(self, n, states):
        out = Out()
        if n.value is None:
            pairs = [(s, NONE) for s in states]
        else:
            pairs = self.ev(n.value, states, out)
        for s, v in pairs:
            if len(self.stack) == 1:
                s = self.c.on_return(self, s, v, n)
            out.ret.append((s, v))
        return out

    def s_Raise(self, n, states):
        out = Out()
        if n.exc is None:
            for s in states:
                out.exc.append((s, s.env.get("@exc", ANY_EXC)))
            return out
        for s, v in self.ev(n.exc, states, out, raising=True):
            pairs = [(s, v)]
            if n.cause is not None:
                pairs = [(s2, v) for s2, _ in self.ev(n.cause, [s], out)]
            for s2, v2 in pairs:
                out.exc.append((s2, self.exc_class(v2)))
        return out

    def exc_class(self, v):
        if v.k == "new":
            return mk("exc", v.a[1])
        if v.k == "call" and v.a[1].k == "g":
            return mk("exc", v.a[1].a[0])
        if v.k == "g":
            return mk("exc", v.a[0])
        if v.k == "exc":
            return v
        return ANY_EXC

    def s_Assert(self, n, states):
        out = Out()
        t, f = self.cond(n.test, states, out)
        out.fall = t
        for s in f:
            out.exc.append((s, mk("exc", "AssertionError")))
        return out

    def s_If(self, n, states):
        out = Out()
        from .core import is_type_checking

        if is_type_checking(n.test):
            return self.block(n.orelse, states)
        t, f = self.cond(n.test, states, out, n)
        t, f = self.dedupe(t), self.dedupe(f)
        a = self.block(n.body, t) if t else Out()
        b = self.block(n.orelse, f) if f else Out()
        out.absorb(a)
        out.absorb(b)
        return out

    def s_Match(self, n, states):
        out = Out()
        pairs = self.ev(n.subject, states, out)
        cur = [s for s, _ in pairs]
        out.fall += cur
        for c in n.cases:
            ss = []
            for s in cur:
                s = s.copy()
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None)
                    if isinstance(nm, str):
                        s.env[nm] = mk("unk", "match", id(x))
                ss.append(s)
            if c.guard is not None:
                ss, _ = self.cond(c.guard, ss, out)
            out.absorb(self.block(c.body, ss))
        return out

    def s_For(self, n, states):
        out = Out()
        pairs = self.ev(n.iter, states, out)
        # literal iterables: unroll (keeps per-element precision)
        entry = []
        for s, it in pairs:
            entry.append((s, it))
        exits, groups = [], {}
        for s0, it in entry:
            if it.k in ("tuple", "list") and 0 < len(self._elts(it)) <= 8 and not _has_break(n.body):
                cur = [s0]
                for e in self._elts(it):
                    nxt = []
                    for s in cur:
                        for s1 in self.assign(n.target, e, s, out, n):
                            o = self.block(n.body, [s1])
                            out.ret += o.ret
                            out.exc += o.exc
                            exits += o.brk
                            nxt += o.fall + o.cont
                    cur = self.dedupe(nxt)
                if n.orelse and cur:
                    o = self.block(n.orelse, cur)
                    out.absorb(o, fall=False)
                    cur = o.fall
                exits += cur
                continue
            groups.setdefault(it, []).append(s0)
        if len(groups) > 3:
            m = phi(list(groups))
            groups = {m: [s for g in groups.values() for s in g]}
        for it, ss in groups.items():
            exits += self._loop(n, self.dedupe(ss), it, out)
        out.fall = self.dedupe(exits)
        return out

    s_AsyncFor = s_For

    @staticmethod
    def _elts(it):
        return it.a[0] if it.k == "tuple" else it.a[1]

    def s_While(self, n, states):
        out = Out()
        out.fall = self.dedupe(self._loop(n, states, None, out))
        return out

    def _loop(self, n, states, it, out):
        """Fixpoint over loop iterations; returns the states after the loop."""
        assigned = _assigned_names(n)
        seen = set()
        head = states
        exits, done = [], []
        for rnd in range(12):
            head = [s for s in self.dedupe(head) if s.key() not in seen]
            if not head:
                break
            for s in head:
                seen.add(s.key())
            if it is None:
                t, f = self.cond(n.test, head, out, n)
                done += f
                body_in = t
            else:
                if rnd == 0:
                    for s in head:
                        z = self.c.on_loop_zero(self, s, it, n)
                        if z is not None:
                            done.append(z)
                else:
                    done += head
                body_in = []
                el = self.elem_of(it, n)
                for s in head:
                    s = self._drop_site_facts(s, n)
                    body_in += self.assign(n.target, el, s, out, n)
            o = self.block(n.body, self.dedupe(body_in)) if body_in else Out()
            if it is not None:
                o.brk = [self.c.on_loop_left(self, s, it, n, states) for s in o.brk]
                o.ret = [(self.c.on_loop_left(self, s, it, n, states), v) for s, v in o.ret]
            out.ret += o.ret
            out.exc += o.exc
            exits += o.brk
            nxt = self.dedupe(o.fall + o.cont)
            if rnd >= 1:
                nxt = [self._widen(s, states, assigned, n) for s in nxt]
                by = {}
                for s in nxt:
                    # path facts known at entry stay apart for the first rounds
                    fk = frozenset(s.facts.items()) if rnd < 4 else None
                    by.setdefault((s.mon, s.frame, fk), []).append(s)
                nxt = [self._merge_group(self._uniq(g)) for g in by.values()]
            head = nxt
        else:
            done += head
        out.exc = self.merge_exc(out.exc)
        if n.orelse and done:
            o = self.block(n.orelse, self.dedupe(done))
            out.absorb(o, fall=False)
            done = o.fall
        return exits + done

    def _drop_site_facts(self, s, n):
        return s

    def _widen(self, s, entry, assigned, n):
        s = s.copy()
        for v in assigned:
            if v in s.env and any(e.env.get(v) is not s.env[v] for e in entry):
                s.env[v] = mk("loopvar", id(n), v)
        # keep only what some entry state already had (facts of s stay valid; this is for termination)
        for k in list(s.heap):
            if not any(e.heap.get(k) is s.heap[k] for e in entry):
                del s.heap[k]
        s.facts = {k: v for k, v in s.facts.items() if any(e.facts.get(k) == v for e in entry)}
        return s

    def s_Break(self, n, states):
        out = Out()
        out.brk = states
        return out

    def s_Continue(self, n, states):
        out = Out()
        out.cont = states
        return out

    def s_Pass(self, n, states):
        out = Out()
        out.fall = states
        return out

    def s_Delete(self, n, states):
        out = Out()
        cur = states
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s = self.c.on_del(self, s, s.env.get(t.id, mk("unbound", t.id)), n)
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, [s], out):
                        for s2, i in self.ev(t.slice, [s1], out):
                            s2 = self.c.on_del(self, s2, mk("item", b, i), n)
                            s2 = s2.copy()
                            s2.heap.pop((b, i), None)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, [s], out):
                        s1 = self.c.on_del(self, s1, mk("attr", b, t.attr), n)
                        s1 = s1.copy()
                        s1.heap.pop((b, t.attr), None)
                        nxt.append(s1)
                else:
                    nxt.append(s)
            cur = nxt
        out.fall = cur
        return out

    def s_With(self, n, states):
        return self._with(n, list(n.items), states)

    s_AsyncWith = s_With

    def _with(self, n, items, states):
        if not items:
            return self.block(n.body, states)
        it, rest = items[0], items[1:]
        out = Out()
        body = lambda ss: self._with(n, rest, ss)
        for s, cm in self.ev(it.context_expr, states, out, with_ctx=True):
            out.absorb(self._with_one(n, it, cm, s, body))
        return out

    def _with_one(self, n, it, cm, s, body):
        out = Out()
        # a repo generator decorated with contextmanager: run it around the body
        if cm.k == "gencm" and self.depth < self.c.max_depth:
            callee, env, frame = cm.a[1], self.closures[cm][1], cm
            return self._run_gencm(n, it, callee, env, s, body)
        cls = cm.a[1] if cm.k == "new" and isinstance(cm.a[1], ClassInfo) else None
        enter = cls.lookup("__enter__") if cls else None
        exit_ = cls.lookup("__exit__") if cls else None
        if enter is not None and exit_ is not None and self.depth < self.c.max_depth and self.c.inline(self, enter, self.depth):
            for s1, v in self.call_inline(enter, s, [cm], {}, it.context_expr, out):
                ss = [s1]
                if it.optional_vars is not None:
                    ss = self.assign(it.optional_vars, v, s1, out, n)
                o = body(ss)
                self._leave(out, o, lambda st, exc: self._exit_inline(exit_, cm, st, exc, it.context_expr, out))
            return out
        s = self.c.on_with(self, s, cm, n, True)
        v = mk("enter", cm)
        ss = [s]
        if it.optional_vars is not None:
            ss = self.assign(it.optional_vars, v, s, out, n)
        o = body(ss)
        suppress = _is_suppress(cm)

        def leave(st, exc):
            st = self.c.on_with(self, st, cm, n, False)
            if exc is not None and suppress:
                return [(st, True), (st, False)]
            return [(st, False)]

        self._leave(out, o, leave)
        return out

    def _leave(self, out, o, leave):
        for s in o.fall:
            out.fall += [x for x, _ in leave(s, None)]
        for s, v in o.ret:
            out.ret += [(x, v) for x, _ in leave(s, None)]
        for s in o.brk:
            out.brk += [x for x, _ in leave(s, None)]
        for s in o.cont:
            out.cont += [x for x, _ in leave(s, None)]
        for s, e in o.exc:
            for x, swallowed in leave(s, e):
                if swallowed:
                    out.fall.append(x)
                else:
                    out.exc.append((x, e))

    def _exit_inline(self, exit_, cm, st, exc, node, out):
        if exc is None:
            args = [cm, NONE, NONE, NONE]
        else:
            args = [cm, mk("excinfo", "type"), mk("excinfo", "value"), mk("excinfo", "tb")]
        res = []
        npar = len(exit_.params())
        extra = None
        if exit_.node.args.vararg is not None:
            extra = exit_.node.args.vararg.arg
        for s2, v in self.call_inline(exit_, st, args[:npar] if not extra else args, {}, node, out):
            if exc is None:
                res.append((s2, False))
            else:
                tv = self.truth(s2, v)
                if tv is True:
                    res.append((s2, True))
                elif tv is False:
                    res.append((s2, False))
                else:
                    res += [(s2, True), (s2, False)]
        return res

    def _run_gencm(self, n, it, callee, env, s, body):
        out = Out()
        caller_env, caller_frame = s.env, s.frame
        stack_at = list(self.stack)
        pend = {}

        def handler(states, yielded, node):
            """At the yield: run the with-body in the caller's frame."""
            o = Out()
            saved_stack = self.stack
            for st, v in zip(states, yielded):
                genv = st.env
                c = st.copy()
                c.env = dict(caller_env)
                c.frame = caller_frame
                self.stack = list(stack_at)
                ss = [c]
                oo = Out()
                if it.optional_vars is not None:
                    ss = self.assign(it.optional_vars, v, c, oo, n)
                hs = self.yield_handlers
                self.yield_handlers = hs[:-1]
                b = body(ss)
                self.yield_handlers = hs
                self.stack = saved_stack

                def back(x, kind, val=None):
                    y = x.copy()
                    y.frame = ("yb", kind, frozenset(x.env.items()), val, caller_frame)
                    y.env = dict(genv)
                    return y

                o.exc += [(back(x, "exc"), e) for x, e in oo.exc + b.exc]
                for x in b.fall:
                    o.fall.append(back(x, "fall"))
                for x, v2 in b.ret:
                    o.fall.append(back(x, "ret", v2))
                for x in b.brk:
                    o.fall.append(back(x, "brk"))
                for x in b.cont:
                    o.fall.append(back(x, "cont"))
            return o

        g = s.copy()
        g.env = dict(env)
        self.yield_handlers = self.yield_handlers + [(len(self.stack) + 1, handler)]
        try:
            o = self.run_body(callee, [g])
        finally:
            self.yield_handlers = self.yield_handlers[:-1]

        def restore(x):
            fr = x.frame
            y = x.copy()
            if isinstance(fr, tuple) and fr and fr[0] == "yb":
                y.env = dict(fr[2])
                y.frame = fr[4]
                return y, fr[1], fr[3]
            y.env = dict(caller_env)
            y.frame = caller_frame
            return y, "noyield", None

        for x, _ in o.ret:
            y, kind, val = restore(x)
            if kind == "ret":
                out.ret.append((y, val))
            elif kind == "brk":
                out.brk.append(y)
            elif kind == "cont":
                out.cont.append(y)
            elif kind == "exc":
                out.fall.append(y)  # swallowed by the generator
            elif kind == "fall":
                out.fall.append(y)
        for x, e in o.exc:
            y, _, _ = restore(x)
            out.exc.append((y, e))
        return out

    def s_Try(self, n, states):
        out = Out()
        o = self.block(n.body, states)
        inner = Out()
        if n.orelse and o.fall:
            oe = self.block(n.orelse, o.fall)
            inner.absorb(oe)
        else:
            inner.fall += o.fall
        inner.ret += o.ret
        inner.brk += o.brk
        inner.cont += o.cont
        unhandled = []
        if n.handlers:
            pend = self.merge_exc(o.exc)
            for h in n.handlers:
                if not pend:
                    break
                caught, rest = [], []
                for s, e in pend:
                    m = self.catches(h, e, s)
                    if m in ("yes", "maybe"):
                        caught.append((s, e))
                    if m in ("no", "maybe"):
                        rest.append((s, e))
                ss = []
                for s, e in caught:
                    s = s.copy()
                    s.env["@exc"] = e if e is not ANY_EXC else self._handler_exc(h)
                    if h.name:
                        s.env[h.name] = mk("excval", e)
                    ss.append(s)
                if ss:
                    oh = self.block(h.body, self.dedupe(ss))
                    for lst in (oh.fall, oh.brk, oh.cont):
                        for s in lst:
                            s.env.pop("@exc", None)
                            if h.name:
                                s.env.pop(h.name, None)
                    inner.absorb(oh)
                pend = rest
            unhandled = pend
        else:
            unhandled = o.exc
        inner.exc += unhandled
        if not n.finalbody:
            out.absorb(inner)
            return out
        # finally
        def fin(pairs, cons):
            for st, extra in pairs:
                of = self.block(n.finalbody, [st])
                for x in of.fall:
                    cons(x, extra)
                out.ret.extend(of.ret)
                out.exc.extend(of.exc)
                out.brk.extend(of.brk)
                out.cont.extend(of.cont)

        fin([(s, None) for s in self.dedupe(inner.fall)], lambda x, e: out.fall.append(x))
        fin(self.merge_ret(inner.ret), lambda x, e: out.ret.append((x, e)))
        fin(self.merge_exc(inner.exc), lambda x, e: out.exc.append((x, e)))
        fin([(s, None) for s in self.dedupe(inner.brk)], lambda x, e: out.brk.append(x))
        fin([(s, None) for s in self.dedupe(inner.cont)], lambda x, e: out.cont.append(x))
        return out

    def _handler_exc(self, h):
        return ANY_EXC

    def catches(self, h, e, s):
        """Does handler h catch exception class term e: yes / no / maybe."""
        if h.type is None:
            return "yes"
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        best = "no"
        for t in types:
            r = self.repo.resolve_expr(t, self.func.module, self.func)
            best = max(best, self._catch1(r, e), key=["no", "maybe", "yes"].index)
        return best

    def _catch1(self, handler, e):
        hn = handler.qualname if isinstance(handler, ClassInfo) else handler
        if hn in ("BaseException",):
            return "yes"
        x = e.a[0]
        if x == "any":
            return "yes" if hn == "Exception" and not getattr(self.c, "base_exceptions", False) else "maybe"
        if hn == "Exception":
            return "no" if x in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") else "yes"
        if isinstance(x, ClassInfo):
            return "yes" if x.is_subclass_of(hn) or any(
                isinstance(b, str) and _ext_sub(b, hn) for b in x.mro() if isinstance(b, str)
            ) else "no"
        if isinstance(x, str):
            return "yes" if _ext_sub(x, hn) else ("no" if x in BUILTIN_EXC else "maybe")
        return "maybe"

    def s_FunctionDef(self, n, states):
        out = Out()
        fi = self.repo.func_of_node.get(n)
        for s in states:
            s = s.copy()
            t = mk("closure", id(n), n.name)
            self.closures[t] = (fi, dict(s.env), self.func)
            s.env[n.name] = t
            out.fall.append(s)
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, states):
        out = Out()
        for s in states:
            s = s.copy()
            s.env[n.name] = mk("unk", "class", n.name)
            out.fall.append(s)
        return out

    def s_Import(self, n, states):
        out = Out()
        table = {}
        self.repo._import(self.func.module, n, table)
        for s0 in states:
            s = s0.copy()
            for k, imp in table.items():
                if k == "*":
                    continue
                r = self.repo.resolve_dotted(imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}")
                s.env[k] = mk("g", r)
            out.fall.append(s)
            if not self.c.assume_total and not _stdlib_import(n) and self.c.import_may_fail(self, n):
                out.exc.append((s0, mk("exc", "ImportError")))
        return out

    s_ImportFrom = s_Import

    # -- conditions ----------------------------------------------------------------
    def cond(self, e, states, out, node=None):
        """Split states on the truth of e -> (true states, false states)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, states, out, node)
            return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                t, fs = states, []
                for v in e.values:
                    t, f = self.cond(v, t, out, node) if t else ([], [])
                    fs += f
                return t, self.dedupe(fs)
            f, ts = states, []
            for v in e.values:
                t, f = self.cond(v, f, out, node) if f else ([], [])
                ts += t
            return self.dedupe(ts), f
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, states, out, node)
            t1, f1 = self.cond(e.body, t, out, node) if t else ([], [])
            t2, f2 = self.cond(e.orelse, f, out, node) if f else ([], [])
            return t1 + t2, f1 + f2
        ts, fs = [], []
        for s, v in self.ev(e, states, out):
            self.split(s, v, ts, fs, node or e)
        return ts, fs

    def split(self, s, v, ts, fs, node):
        v, pos = normalise(v)
        if v.k == "phi":
            # distribute over the alternatives when they are decided
            tv = {self.truth(s, x) for x in v.a[0]}
            if len(tv) == 1 and None not in tv:
                tv = next(iter(tv))
            else:
                tv = None
        else:
            tv = self.truth(s, v)
        if tv is not None:
            (ts if tv == pos else fs).append(s)
            return
        a, b = s.copy(), s.copy()
        a.facts[v] = True
        b.facts[v] = False
        a = self.c.on_branch(self, a, v, True, node)
        b = self.c.on_branch(self, b, v, False, node)
        if a is not None:
            (ts if pos else fs).append(a)
        if b is not None:
            (fs if pos else ts).append(b)

    def truth(self, s, v):
        """Truth value of a term if known on this path."""
        v, pos = normalise(v)
        r = self._truth(s, v)
        return r if r is None else (r == pos)

    def _truth(self, s, v):
        if v.k == "const":
            return bool(v.a[1])
        f = s.facts.get(v)
        if f is not None:
            return f
        if v.k == "phi":
            rs = {self.truth(s, x) for x in v.a[0]}
            return rs.pop() if len(rs) == 1 else None
        if v.k == "cmp":
            op, a, b = v.a
            if op == "is" and b is NONE:
                return self.is_none(s, a)
            if op == "is":
                if a is b:
                    return True
                if is_const(a) and is_const(b):
                    return a is b
            if op == "==":
                if a is b and a.k != "unk":
                    return True
                if is_const(a) and is_const(b):
                    return a.a[1] == b.a[1]
                if b is NONE:
                    return self.is_none(s, a)
                if is_class(a) and is_class(b):
                    return a.a[0] is b.a[0]
                for x, y in ((a, b), (b, a)):
                    if is_class(y):
                        for t, val in s.facts.items():
                            if val and t.k == "cmp" and t.a[0] in ("==", "is") and t.a[1] is x and is_class(t.a[2]) and t.a[2].a[0] is not y.a[0]:
                                return False
                    if is_const(y):
                        for t, val in s.facts.items():
                            if val and t.k == "cmp" and t.a[0] == "==" and t.a[1] is x and is_const(t.a[2]):
                                if t.a[2] is not y and t.a[2].a[1] != y.a[1]:
                                    return False
            if op == "in" and b.k in ("tuple", "list", "set"):
                els = self._elts(b)
                if is_const(a) and all(is_const(x) for x in els):
                    return a.a[1] in [x.a[1] for x in els]
            if op in ("<", ">", "<=", ">=") and is_const(a) and is_const(b):
                try:
                    return {"<": a.a[1] < b.a[1], ">": a.a[1] > b.a[1], "<=": a.a[1] <= b.a[1], ">=": a.a[1] >= b.a[1]}[op]
                except TypeError:
                    return None
            return None
        if v.k in ("tuple",):
            return bool(v.a[0])
        if v.k in ("new", "closure", "lambda", "self", "cls"):
            return True
        if v.k == "g" and not isinstance(v.a[0], str):
            return True
        if v.k == "call" and v.a[1].k == "g" and v.a[1].a[0] == "bool" and len(v.a[2]) == 1:
            return self.truth(s, v.a[2][0])
        # x is None known
        n = self.is_none(s, v)
        if n is True:
            return False
        return None

    def is_none(self, s, a):
        if a is NONE:
            return True
        if a.k == "phi":
            rs = {self.is_none(s, x) for x in a.a[0]}
            return rs.pop() if len(rs) == 1 else None
        if a.k in ("const", "new", "tuple", "list", "dict", "set", "fstr", "closure", "lambda", "self", "cls", "bin", "comp", "cmp", "slice", "gencm", "obj", "req"):
            return False
        if a.k == "g" and not isinstance(a.a[0], str):
            return False
        f = s.facts.get(mk("cmp", "is", a, NONE))
        if f is not None:
            return f
        if s.facts.get(a) is True:
            return False
        # equality with a non-None constant, or isinstance, implies not None
        for t, val in s.facts.items():
            if val and t.k == "cmp" and t.a[0] == "==" and t.a[1] is a and is_const(t.a[2]) and t.a[2] is not NONE:
                return False
            if val and t.k == "isinst" and t.a[0] is a:
                return False
        return None

    # -- expressions -----------------------------------------------------------------
    def evlist(self, exprs, states, out):
        """Evaluate left to right; returns [(state, [terms])]."""
        acc = [(s, []) for s in states]
        for e in exprs:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, [s], out):
                    nxt.append((s2, vs + [v]))
            acc = nxt
            if len(acc) > 4 * self.c.max_states:
                groups = {}
                for s, vs in acc:
                    groups.setdefault((s.mon, s.frame), []).append((s, vs))
                acc = [
                    (self._merge_group([s for s, _ in g]), [phi(col) for col in zip(*[v for _, v in g])])
                    for g in groups.values()
                ]
        return acc

    def ev(self, e, states, out, raising=False, with_ctx=False):
        if not states:
            return []
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            kids = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            acc = self.evlist(kids, states, out)
            return [(s, mk("op", type(e).__name__, id(e), tuple(vs))) for s, vs in acc]
        if isinstance(e, ast.Call):
            return m(e, states, out, raising=raising, with_ctx=with_ctx)
        return m(e, states, out)

    def e_Constant(self, e, states, out):
        try:
            hash(e.value)
            v = const(e.value)
        except TypeError:
            v = mk("unk", "const", id(e))
        return [(s, v) for s in states]

    def e_Name(self, e, states, out):
        res = []
        for s in states:
            v = s.env.get(e.id)
            if v is None:
                v = self.global_name(e, s)
            s = self.c.on_load_name(self, s, e.id, v, e)
            res.append((s, v))
        return res

    def global_name(self, e, s):
        f = self.func
        r = self.repo.resolve_expr(e, f.module, f)
        if isinstance(r, FuncInfo) and r.parent is not None:
            t = mk("closure", id(r.node), r.name)
            self.closures.setdefault(t, (r, {}, r.parent))
            return t
        if isinstance(r, str) and r.startswith("caput.") and r.count("."):
            mod, _, nm = r.rpartition(".")
            m = self.repo.modules.get(mod)
            if m is not None and nm in m.globals and isinstance(m.globals[nm], ast.Constant):
                writers = getattr(m, "_gwriters", None)
                if writers is None:
                    writers = {
                        x for fn in m.all_funcs for g in ast.walk(fn.node) if isinstance(g, ast.Global) for x in g.names
                    }
                    m._gwriters = writers
                if nm not in writers and not isinstance(m.globals[nm].value, bytes):
                    cnt = sum(
                        1
                        for st in ast.walk(m.tree)
                        if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id == nm
                    )
                    if cnt == 1:
                        return const(m.globals[nm].value)
        return mk("g", r if r is not None else e.id)

    def e_Attribute(self, e, states, out):
        res = []
        for s, b in self.ev(e.value, states, out):
            res += self.load_attr(s, b, e.attr, e, out)
        return res

    def load_attr(self, s, b, attr, node, out):
        h = s.heap.get((b, attr))
        if h is not None:
            s = self.c.on_load(self, s, h, node)
            return [(s, h)]
        if b.k == "g":
            o = b.a[0]
            if isinstance(o, Module):
                r = self.repo.resolve_in_module(o, attr)
                return [(s, mk("g", r))]
            if isinstance(o, ClassInfo):
                f = o.lookup(attr)
                if f is not None:
                    return [(s, mk("unbound_method", f, o))]
                return [(s, mk("attr", b, attr))]
            if isinstance(o, str):
                return [(s, mk("g", f"{o}.{attr}"))]
        # properties of known classes are analysed in place
        cls = self.class_of(b)
        if cls is not None:
            f = cls.lookup(attr)
            if f is not None and f.is_property and self.can_inline(f):
                return self.call_inline(f, s, [b], {}, node, out)
        t = mk("attr", b, attr)
        s = self.c.on_load(self, s, t, node)
        return [(s, t)]

    def class_of(self, b):
        if b.k in ("self", "cls") and isinstance(b.a[0], ClassInfo):
            return b.a[0]
        if b.k == "new" and isinstance(b.a[1], ClassInfo):
            return b.a[1]
        if b.k == "attr" and b.a[1] == "__class__":
            c = self.class_of(b.a[0])
            return c
        h = getattr(self.c, "class_of", None)
        return h(self, b) if h else None

    def item_of(self, b, i, s):
        if b.k in ("tuple", "list") and is_const(i) and isinstance(i.a[1], int) and not isinstance(i.a[1], bool):
            els = self._elts(b)
            if -len(els) <= i.a[1] < len(els) and not any(x.k == "star" for x in els):
                return els[i.a[1]]
        return mk("item", b, i)

    def e_Subscript(self, e, states, out):
        res = []
        for s, b in self.ev(e.value, states, out):
            for s2, i in self.ev(e.slice, [s], out):
                h = s2.heap.get((b, i))
                t = h if h is not None else self.item_of(b, i, s2)
                s2 = self.c.on_load(self, s2, t, e)
                hook = getattr(self.c, "on_subscript", None)
                if hook is not None:
                    r = hook(self, s2, b, i, t, e, out)
                    if r is not None:
                        res += r
                        continue
                res.append((s2, t))
        return res

    def e_Slice(self, e, states, out):
        parts = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
        return [(s, mk("slice", *vs)) for s, vs in self.evlist(parts, states, out)]

    def e_Tuple(self, e, states, out):
        return [(s, mk("tuple", tuple(vs))) for s, vs in self.evlist(e.elts, states, out)]

    def e_List(self, e, states, out):
        return [(s, mk("list", id(e), tuple(vs))) for s, vs in self.evlist(e.elts, states, out)]

    def e_Set(self, e, states, out):
        return [(s, mk("set", id(e), tuple(vs))) for s, vs in self.evlist(e.elts, states, out)]

    def e_Dict(self, e, states, out):
        ks = [k if k is not None else ast.Constant(value=None) for k in e.keys]
        res = []
        for s, vs in self.evlist(ks + e.values, states, out):
            n = len(ks)
            keys = [mk("dstar") if e.keys[i] is None else vs[i] for i in range(n)]
            t = mk("dict", id(e), tuple(zip(keys, vs[n:])))
            s = s.copy()
            for k, v in zip(keys, vs[n:]):
                if k.k == "const":
                    s.heap[(t, k)] = v
            res.append((s, t))
        return res

    def e_Starred(self, e, states, out):
        return [(s, mk("star", v)) for s, v in self.ev(e.value, states, out)]

    def e_BinOp(self, e, states, out):
        res = []
        for s, vs in self.evlist([e.left, e.right], states, out):
            op = type(e.op).__name__
            a, b = vs
            self.c.on_binop(self, s, op, a, b, e)
            if is_const(a) and is_const(b) and op in ("Add", "Sub", "Mult"):
                try:
                    v = {"Add": lambda: a.a[1] + b.a[1], "Sub": lambda: a.a[1] - b.a[1], "Mult": lambda: a.a[1] * b.a[1]}[op]()
                    if len(repr(v)) < 200:
                        res.append((s, const(v)))
                        continue
                except Exception:  # noqa: BLE001
                    pass
            res.append((s, mk("bin", op, a, b)))
        return res

    def e_UnaryOp(self, e, states, out):
        res = []
        for s, v in self.ev(e.operand, states, out):
            if isinstance(e.op, ast.Not):
                tv = self.truth(s, v)
                res.append((s, const(not tv) if tv is not None else mk("un", "not", v)))
            elif isinstance(e.op, ast.USub) and is_const(v) and isinstance(v.a[1], (int, float)):
                res.append((s, const(-v.a[1])))
            else:
                res.append((s, mk("un", type(e.op).__name__, v)))
        return res

    def e_Compare(self, e, states, out):
        res = []
        for s, vs in self.evlist([e.left, *e.comparators], states, out):
            parts = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                self.c.on_binop(self, s, type(op).__name__, a, b, e)
                parts.append(mk_cmp(op, a, b))
            t = parts[0] if len(parts) == 1 else mk("bool", "and", tuple(parts))
            res.append((s, t))
        return res

    def e_BoolOp(self, e, states, out):
        """Value of and/or with short circuit."""
        res = []
        cur = states
        for i, v in enumerate(e.values):
            if not cur:
                break
            pairs = self.ev(v, cur, out)
            if i == len(e.values) - 1:
                res += pairs
                break
            cur = []
            for s, val in pairs:
                ts, fs = [], []
                self.split(s, val, ts, fs, e)
                stop, go = (fs, ts) if isinstance(e.op, ast.And) else (ts, fs)
                res += [(x, val) for x in stop]
                cur += go
        return res

    def e_IfExp(self, e, states, out):
        t, f = self.cond(e.test, states, out, e)
        return (self.ev(e.body, t, out) if t else []) + (self.ev(e.orelse, f, out) if f else [])

    def e_NamedExpr(self, e, states, out):
        res = []
        for s, v in self.ev(e.value, states, out):
            for s2 in self.assign(e.target, v, s, out, e):
                res.append((s2, v))
        return res

    def e_JoinedStr(self, e, states, out):
        kids = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(s, mk("fstr", tuple(vs))) for s, vs in self.evlist(kids, states, out)]

    def e_FormattedValue(self, e, states, out):
        return self.ev(e.value, states, out)

    def e_Lambda(self, e, states, out):
        res = []
        for s in states:
            t = mk("lambda", id(e))
            fi = self._lambda_info(e)
            self.closures[t] = (fi, dict(s.env), self.func)
            res.append((s, t))
        return res

    def _lambda_info(self, e):
        fi = self.repo.func_of_node.get(e)
        if fi is None:
            fi = FuncInfo("<lambda>", self.func.qualname + ".<lambda>", e, self.func.module, None, self.func)
            self.repo.func_of_node[e] = fi
        return fi

    def e_ListComp(self, e, states, out):
        return self._comp(e, states, out, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, states, out):
        return self._comp(e, states, out, [e.key, e.value])

    def _comp(self, e, states, out, elts):
        res = []
        for s in states:
            saved = dict(s.env)
            cur = [s]
            zero = []
            iters = []
            for g in e.generators:
                nxt = []
                for s1, it in self.ev(g.iter, cur, out):
                    iters.append(it)
                    z = self.c.on_loop_zero(self, s1, it, g)
                    if z is not None:
                        zero.append(z)
                    for s2 in self.assign(g.target, self.elem_of(it, g), s1, out, e):
                        nxt.append(s2)
                cur = nxt
                for c in g.ifs:
                    t, f = self.cond(c, cur, out)
                    zero += f
                    cur = t
            vals = []
            final = []
            for s1, vs in self.evlist(elts, cur, out):
                vals.append(tuple(vs))
                final.append(s1)
            v = mk("comp", type(e).__name__, id(e), tuple(phi(c) for c in zip(*vals)) if vals else (), tuple(iters[:3]))
            for x in self.dedupe([self._restore(y, saved) for y in zero + final]):
                res.append((x, v))
        return res

    @staticmethod
    def _restore(s, env):
        s = s.copy()
        s.env = dict(env)
        return s

    def elem_of(self, it, node):
        if it.k == "call" and it.a[1].k == "g" and it.a[1].a[0] == "enumerate" and it.a[2]:
            return mk("tuple", (mk("idx", id(node)), self.elem_of(it.a[2][0], node)))
        if it.k == "call" and it.a[1].k == "g" and it.a[1].a[0] == "zip":
            return mk("tuple", tuple(self.elem_of(x, node) for x in it.a[2]))
        if it.k == "call" and it.a[1].k == "g" and it.a[1].a[0] in ("list", "tuple", "sorted", "reversed", "iter") and it.a[2]:
            return self.elem_of(it.a[2][0], node)
        if it.k == "call" and it.a[1].k == "attr" and it.a[1].a[1] == "items" and not it.a[2]:
            b = it.a[1].a[0]
            k = mk("iter", b)
            return mk("tuple", (k, mk("item", b, k)))
        if it.k == "call" and it.a[1].k == "attr" and it.a[1].a[1] == "keys" and not it.a[2]:
            return mk("iter", it.a[1].a[0])
        if it.k == "call" and it.a[1].k == "attr" and it.a[1].a[1] == "values" and not it.a[2]:
            b = it.a[1].a[0]
            return mk("item", b, mk("iter", b))
        if it.k == "comp" and len(it.a[2]) == 1:
            return it.a[2][0]
        if it.k in ("tuple", "list") and self._elts(it):
            return phi([x.a[0] if x.k == "star" else x for x in self._elts(it)])
        return mk("iter", it)

    def e_Yield(self, e, states, out):
        pairs = self.ev(e.value, states, out) if e.value is not None else [(s, NONE) for s in states]
        if self.yield_handlers and self.yield_handlers[-1][0] == len(self.stack):
            h = self.yield_handlers[-1][1]
            o = h([s for s, _ in pairs], [v for _, v in pairs], e)
            out.exc += o.exc
            return [(s, NONE) for s in o.fall]
        res = []
        for s, v in pairs:
            s = self.c.on_yield(self, s, v, e)
            res.append((s, mk("unk", "sent", id(e))))
            if not self.c.assume_total and getattr(self.c, "yield_raises", True):
                out.exc.append((s, ANY_EXC))
        return res

    def e_YieldFrom(self, e, states, out):
        return [(s, mk("unk", "yf", id(e))) for s, _ in self.ev(e.value, states, out)]

    def e_Await(self, e, states, out):
        return self.ev(e.value, states, out)

    # -- calls -----------------------------------------------------------------------
    def can_inline(self, f):
        if self.depth >= self.c.max_depth or f in self.stack:
            return False
        return self.c.inline(self, f, self.depth)

    def e_Call(self, e, states, out, raising=False, with_ctx=False):
        self.calls_seen += 1
        res = []
        # super().method(...)
        if (
            isinstance(e.func, ast.Attribute)
            and isinstance(e.func.value, ast.Call)
            and isinstance(e.func.value.func, ast.Name)
            and e.func.value.func.id == "super"
        ):
            cls = enclosing_class(self.func)
            base = []
            for s in states:
                selfname = None
                f = self.func
                while f.parent is not None:
                    f = f.parent
                ps = f.all_params()
                me = s.env.get(ps[0]) if ps else None
                rt = None
                if me is not None and me.k in ("self", "cls") and isinstance(me.a[0], ClassInfo):
                    rt = me.a[0]
                m = None
                if cls is not None:
                    m = (rt if rt is not None and cls in rt.mro() else cls).lookup_after(cls, e.func.attr)
                if m is not None and me is not None:
                    base.append((s, mk("bound", me, m)))
                else:
                    base.append((s, mk("superattr", me if me is not None else NONE, e.func.attr)))
        elif isinstance(e.func, ast.Attribute):
            base = []
            for s, b in self.ev(e.func.value, states, out):
                base += self.method_terms(s, b, e.func.attr, e, out)
        else:
            base = self.ev(e.func, states, out)
        for s, fn in base:
            argexprs = [a for a in e.args]
            kwexprs = [k.value for k in e.keywords]
            for s2, vs in self.evlist(argexprs + kwexprs, [s], out):
                args = vs[: len(argexprs)]
                # expand literal star-args
                flat = []
                for a in args:
                    if a.k == "star" and a.a[0].k in ("tuple", "list"):
                        flat += list(self._elts(a.a[0]))
                    else:
                        flat.append(a)
                kws = []
                for k, v in zip(e.keywords, vs[len(argexprs) :]):
                    kws.append((k.arg if k.arg is not None else "**", v))
                res += self.do_call(e, s2, fn, flat, kws, out, raising, with_ctx)
        return res

    def method_terms(self, s, b, attr, e, out):
        """Term(s) of the callee of b.attr(...)."""
        h = s.heap.get((b, attr))
        if h is not None:
            return [(s, h)]
        if b.k == "phi":
            # keep alternatives apart only when some alternative is a known class
            if any(self.class_of(x) is not None for x in b.a[0]):
                r = []
                for x in b.a[0]:
                    r += self.method_terms(s, x, attr, e, out)
                return r
        cls = self.class_of(b)
        if cls is not None:
            f = cls.lookup(attr)
            if f is not None:
                if f.is_property:
                    return self.load_attr(s, b, attr, e.func, out)
                return [(s, mk("bound", b, f))]
            return [(s, mk("attr", b, attr))]
        if b.k == "g" and not (isinstance(b.a[0], str)):
            return self.load_attr(s, b, attr, e.func, out)
        if b.k == "g" and isinstance(b.a[0], str) and _looks_module(b.a[0]):
            return [(s, mk("g", f"{b.a[0]}.{attr}"))]
        s = self.c.on_load(self, s, mk("attr", b, attr), e.func)
        return [(s, mk("attr", b, attr))]

    def callee_of(self, fn):
        """(FuncInfo or ClassInfo or None, leading args)."""
        if fn.k == "bound":
            return fn.a[1], [fn.a[0]]
        if fn.k == "unbound_method":
            f, c = fn.a
            if f.is_classmethod:
                return f, [mk("cls", c)]
            return f, []
        if fn.k == "g" and isinstance(fn.a[0], (FuncInfo, ClassInfo)):
            return fn.a[0], []
        if fn.k in ("closure", "lambda"):
            c = self.closures.get(fn)
            return (c[0] if c else None), []
        if fn.k == "cls" and isinstance(fn.a[0], ClassInfo):
            return fn.a[0], []
        if fn.k == "attr" and fn.a[1] == "__class__":
            return self.class_of(fn.a[0]), []
        if fn.k == "call" and fn.a[1].k == "g" and fn.a[1].a[0] == "type" and len(fn.a[2]) == 1:
            return self.class_of(fn.a[2][0]), []
        return None, []

    def do_call(self, e, s, fn, args, kws, out, raising=False, with_ctx=False):
        if fn.k == "phi":
            r = []
            for x in fn.a[0]:
                r += self.do_call(e, s, x, args, kws, out, raising, with_ctx)
            return r
        callee, lead = self.callee_of(fn)
        if callee is None:
            if fn.k == "attr" and fn.a[1] == "Abort" or fn.k == "g" and fn.a[0] in ("os._exit", "os.abort"):
                self.c.on_call(self, s, e, fn, args, kws, callee)
                return []
            if fn.k == "g" and fn.a[0] in ("sys.exit", "exit", "quit"):
                out.exc.append((s, mk("exc", "SystemExit")))
                return []
        # functools.partial(f, ...)
        if fn.k == "call" and fn.a[1].k == "g" and fn.a[1].a[0] == "functools.partial" and fn.a[2]:
            return self.do_call(e, s, fn.a[2][0], list(fn.a[2][1:]) + args, list(fn.a[3]) + kws, out, raising, with_ctx)
        r = self.c.on_call(self, s, e, fn, args, kws, callee)
        if r is not None:
            if isinstance(r, tuple):
                normal, exc = r
                out.exc += [(x, ANY_EXC) if isinstance(x, State) else x for x in exc]
                return normal
            return r
        if isinstance(callee, FuncInfo):
            gen = _is_generator(callee.node)
            if lead and callee.is_static:
                lead = []
            if lead and callee.is_classmethod and lead[0].k != "cls":
                c = self.class_of(lead[0])
                lead = [mk("cls", c)] if c is not None else lead
            if gen and any(d.split(".")[-1] in ("contextmanager",) for d in callee.decorators):
                if with_ctx and self.can_inline(callee):
                    env = self.bind(callee, s, lead + args, kws, fn)
                    if env is not None:
                        t = mk("gencm", id(e), callee)
                        self.closures[t] = (callee, env, self.func)
                        return [(s, t)]
            elif not gen and self.can_inline(callee) and not isinstance(callee.node, ast.AsyncFunctionDef):
                env = self.bind(callee, s, lead + args, kws, fn)
                if env is not None:
                    return self.inline_env(callee, s, env, out)
        if isinstance(callee, ClassInfo):
            return self.construct(e, s, fn, callee, args, kws, out)
        # opaque call
        t = self.pure_call(e, s, fn, args, kws)
        s2 = self.after_opaque(s, fn, args, kws, t)
        if not raising and self.c.may_raise(self, e, fn, callee):
            out.exc.append((s2, ANY_EXC))
        return [(s2, t)]

    def pure_call(self, e, s, fn, args, kws):
        if fn.k == "g" and fn.a[0] == "isinstance" and len(args) == 2:
            return mk("isinst", args[0], args[1])
        if fn.k == "g" and fn.a[0] in ("tuple", "list") and not args and not kws:
            return mk("tuple", ()) if fn.a[0] == "tuple" else mk("list", id(e), ())
        if fn.k == "g" and fn.a[0] in ("tuple", "list") and len(args) == 1 and args[0].k in ("tuple", "list"):
            els = self._elts(args[0])
            return mk("tuple", tuple(els)) if fn.a[0] == "tuple" else mk("list", id(e), tuple(els))
        if fn.k == "g" and fn.a[0] == "dict" and not args and not any(k == "**" for k, _ in kws):
            t = mk("dict", id(e), tuple((const(k), v) for k, v in kws))
            return t
        if fn.k == "g" and fn.a[0] == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1].a[1], str):
            h = s.heap.get((args[0], args[1].a[1]))
            if h is not None:
                return h
            if len(args) == 2:
                return mk("attr", args[0], args[1].a[1])
        if self.is_pure(fn):
            return mk("call", 0, fn, tuple(args), tuple(kws))
        return mk("call", id(e), fn, tuple(args), tuple(kws))

    @staticmethod
    def is_pure(fn):
        """Deterministic functions of their arguments: equal calls give equal terms."""
        return fn.k == "g" and isinstance(fn.a[0], str) and fn.a[0] in PURE_CALLS

    def after_opaque(self, s, fn, args, kws, t):
        """Forget what the call may have changed."""
        touched = [a for a in args if not is_const(a)] + [v for _, v in kws if not is_const(v)]
        if fn.k == "bound":
            touched.append(fn.a[0])
        elif fn.k == "attr":
            touched.append(fn.a[0])
        if fn.k == "g" and isinstance(fn.a[0], str) and (
            fn.a[0] in PURE_BUILTINS or fn.a[0].split(".")[0] in ("numpy", "os", "math", "logging", "warnings", "copy")
        ):
            touched = []
        s2 = s.copy()
        if t.k == "call" and t.a[0] != 0:
            for k in [k for k in s2.facts if t.a[0] in k.sites]:
                del s2.facts[k]
            for k in [k for k in s2.heap if k[0].k == "call" and k[0].a[0] == t.a[0]]:
                del s2.heap[k]
        keep = getattr(self.c, "keep_heap", False)
        if not keep:
            ts = set(touched)
            stable = STABLE_ATTRS | getattr(self.c, "stable_attrs", set())
            extra = getattr(self.c, "stable_attrs", set())
            for k in [k for k in s2.heap if k[0] in ts and k[0].k not in ("g",) and k[1] not in extra]:
                del s2.heap[k]
            if ts:
                dead = [
                    f for f in s2.facts
                    if any(x.k == "attr" and x.a[0] in ts and x.a[1] not in stable for x in f.walk())
                ]
                for f in dead:
                    del s2.facts[f]
        return s2

    def construct(self, e, s, fn, cls, args, kws, out):
        obj = mk("new", id(e), cls)
        s = s.copy()
        for k in [k for k in s.heap if k[0] is obj]:
            del s.heap[k]
        for k in [k for k in s.facts if k.contains(obj)]:
            del s.facts[k]
        init = cls.lookup("__init__")
        new = cls.lookup("__new__")
        if new is not None and self.can_inline(new):
            env = self.bind(new, s, [mk("cls", cls)] + args, kws, fn)
            if env is not None:
                return self.inline_env(new, s, env, out)
        if init is not None and self.can_inline(init):
            env = self.bind(init, s, [obj] + args, kws, fn)
            if env is not None:
                return [(x, obj) for x, _ in self.inline_env(init, s, env, out)]
        s.heap[(obj, "@args")] = mk("tuple", tuple(args))
        s.heap[(obj, "@kwargs")] = mk("dict", id(e), tuple((const(k), v) for k, v in kws))
        if not _is_exc_class(cls) and self.c.may_raise(self, e, fn, cls):
            out.exc.append((s, ANY_EXC))
        return [(s, obj)]

    def call_inline(self, f, s, args, kwargs, node, out):
        env = self.bind(f, s, args, list(kwargs.items()), None)
        if env is None:
            return [(s, mk("unk", "call", id(node)))]
        return self.inline_env(f, s, env, out)

    def inline_env(self, f, s, env, out):
        caller_env, frame = s.env, s.frame
        g = s.copy()
        g.env = env
        o = self.run_body(f, [g])
        res = []
        nl = _nonlocals(f.node)

        def back(x):
            y = x.copy()
            ce = dict(caller_env)
            for n in nl:
                if n in x.env:
                    ce[n] = x.env[n]
            y.env = ce
            y.frame = frame
            return y

        for x, v in self.merge_ret([(back(x), v) for x, v in o.ret]):
            res.append((x, v))
        for x, ex in o.exc:
            out.exc.append((back(x), ex))
        return res

    def bind(self, f: FuncInfo, s, args, kws, fn):
        """Parameter environment for a call, or None if it cannot be determined."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if fn is not None and fn.k in ("closure", "lambda"):
            c = self.closures.get(fn)
            if c is not None:
                if c[2] is self.func or (self.func is not None and c[2] in self.stack and s.env is not None and c[2] is self.func):
                    env.update(s.env)
                else:
                    env.update(c[1])
        elif f.parent is not None:
            env.update(s.env)
        i = 0
        extra = []
        for x in args:
            if x.k == "star":
                # unknown number of positional arguments
                rest = pos[i:]
                for p in rest:
                    env[p] = mk("item", x.a[0], mk("starpos", p))
                i = len(pos)
                extra.append(x)
                continue
            if i < len(pos):
                env[pos[i]] = x
                i += 1
            else:
                extra.append(x)
        bound = set(pos[:i])
        kwonly = [x.arg for x in a.kwonlyargs]
        kwrest = []
        dstar = None
        for k, v in kws:
            if k == "**":
                if v.k == "dict":
                    for kk, vv in v.a[1]:
                        if kk.k == "const":
                            if kk.a[1] in pos or kk.a[1] in kwonly:
                                env[kk.a[1]] = vv
                                bound.add(kk.a[1])
                            else:
                                kwrest.append((kk, vv))
                        else:
                            dstar = vv
                    hp = {key[1].a[1]: val for key, val in s.heap.items() if key[0] is v and isinstance(key[1], Term) and key[1].k == "const"}
                    for kk, vv in hp.items():
                        if kk in pos or kk in kwonly:
                            env[kk] = vv
                            bound.add(kk)
                else:
                    dstar = v
                continue
            if k in pos or k in kwonly:
                env[k] = v
                bound.add(k)
            else:
                kwrest.append((const(k), v))
        defaults = dict(zip(pos[len(pos) - len(a.defaults) :], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + kwonly:
            if p in bound:
                continue
            if dstar is not None:
                d = self.default_term(defaults[p], f) if p in defaults else None
                it = mk("kwitem", dstar, p)
                env[p] = it
                continue
            if p in defaults:
                env[p] = self.default_term(defaults[p], f)
            else:
                env[p] = mk("unk", "missing", p)
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", tuple(extra))
        if a.kwarg is not None:
            if dstar is not None and not kwrest:
                env[a.kwarg.arg] = dstar
            else:
                items = list(kwrest)
                if dstar is not None:
                    items.append((mk("dstar"), dstar))
                env[a.kwarg.arg] = mk("dict", id(f.node), tuple(items))
        return env

    def default_term(self, node, f):
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.Tuple) and not node.elts:
            return mk("tuple", ())
        d = dotted(node)
        if d:
            r = self.repo.resolve_expr(node, f.module, f.parent)
            return mk("g", r)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return const(-node.operand.value)
        return mk("default", f.qualname, ast.dump(node)[:60])


# ---------------------------------------------------------------------------


def mk_cmp(op, a, b):
    n = type(op).__name__
    neg = {"IsNot": "is", "NotEq": "==", "NotIn": "in"}
    if n in neg:
        return mk("un", "not", _cmp(neg[n], a, b))
    names = {"Is": "is", "Eq": "==", "In": "in", "Lt": "<", "Gt": ">", "LtE": "<=", "GtE": ">="}
    return _cmp(names[n], a, b)


def _cmp(op, a, b):
    if op in ("is", "==") and is_const(a) and not is_const(b):
        a, b = b, a
    if op == ">":
        return mk("cmp", "<", b, a)
    if op == "<=":
        return mk("un", "not", mk("cmp", "<", b, a))
    if op == ">=":
        return mk("un", "not", mk("cmp", "<", a, b))
    return mk("cmp", op, a, b)


def normalise(v):
    pos = True
    while v.k == "un" and v.a[0] == "not":
        v = v.a[1]
        pos = not pos
    return v, pos


def _known(s, v):
    """A test whose outcome the path knows, as that outcome (before the path is joined with others)."""
    if v.k == "un" and v.a[0] == "not" or v.k in ("cmp", "isinst"):
        x, pos = normalise(v)
        f = s.facts.get(x)
        if f is not None:
            return const(bool(f) == pos)
    return v


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    ast.copy_location(t2, t)
    for x in ast.walk(t2):
        if not hasattr(x, "lineno"):
            continue
        x.lineno, x.col_offset = t.lineno, t.col_offset
    return t2


_load_cache = {}


def _as_load_cached(t):
    r = _load_cache.get(id(t))
    if r is None:
        r = (_as_load_raw(t), t)
        _load_cache[id(t)] = r
    return r[0]


_as_load_raw = _as_load
_as_load = _as_load_cached  # node identity must be stable: terms are keyed by call site


def _assigned_names(n):
    key = "_assigned"
    r = getattr(n, key, None)
    if r is None:
        r = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r.add(x.id)
        n._assigned = r
    return r


def _has_break(body):
    stack = list(body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def _nonlocals(node):
    r = getattr(node, "_nl", None)
    if r is None:
        r = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Nonlocal):
                r |= set(x.names)
        node._nl = r
    return r


def _is_generator(node):
    r = getattr(node, "_gen", None)
    if r is None:
        from .core import walk_scope

        r = not isinstance(node, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(node))
        node._gen = r
    return r


def _stdlib_import(n):
    import sys

    if isinstance(n, ast.ImportFrom):
        return bool(n.level) or (n.module or "").split(".")[0] in sys.stdlib_module_names
    return all(a.name.split(".")[0] in sys.stdlib_module_names for a in n.names)


def _is_suppress(cm):
    return cm.k == "call" and cm.a[1].k == "g" and isinstance(cm.a[1].a[0], str) and cm.a[1].a[0] in (
        "contextlib.suppress",
        "pytest.raises",
    )


_MODULES = {
    "numpy", "np", "os", "h5py", "zarr", "logging", "json", "shutil", "warnings", "mpi4py", "scipy", "copy", "pickle",
    "itertools", "functools", "time", "datetime", "glob", "inspect", "importlib", "subprocess", "tempfile", "yaml",
    "contextlib", "skyfield", "psutil", "sys", "re", "math", "random", "click", "threading", "concurrent", "pathlib", "types", "collections", "typing", "operator",
}


def _looks_module(d):
    return d.split(".")[0] in _MODULES


def _ext_sub(x, h):
    """Is builtin exception named x a subclass of the one named h?"""
    import builtins

    x, h = x.split(".")[-1], h.split(".")[-1]
    if x == h:
        return True
    cx, ch = getattr(builtins, x, None), getattr(builtins, h, None)
    return isinstance(cx, type) and isinstance(ch, type) and issubclass(cx, ch)


import builtins as _b  # noqa: E402

BUILTIN_EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


def _is_exc_class(cls):
    return any(isinstance(b, str) and b.split(".")[-1] in BUILTIN_EXC for b in cls.mro())
