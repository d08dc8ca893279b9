"""P02: non-blocking transfers are completed before the operation returns or the buffer is used."""

import ast

from ..core import ClassInfo, FuncInfo, Repo, walk_scope
from ..flow import Budget, Client, Engine, Term, mk
from ..report import Result

START = {"Isend", "Irecv", "isend", "irecv", "Issend", "Ibsend", "Irsend", "Ibcast", "Iallreduce", "Ibarrier",
         "Isendrecv", "Iallgather", "Igather", "Iscatter", "Ialltoall"}
RECV = {"Irecv", "irecv", "Ibcast", "Iallreduce", "Iallgather", "Igather", "Iscatter", "Ialltoall", "Isendrecv"}
COMPLETE = {"Wait", "wait", "get_status", "Get_status"}
POLL = {"Test", "test"}
VIEWS = {"reshape", "view", "ravel", "transpose", "swapaxes", "squeeze"}  # look at the buffer without reading it
COMPLETE_ALL = {"Waitall", "waitall", "Testall", "testall"}
PARTIAL = {"Waitany", "Waitsome", "waitany", "waitsome", "Testany", "Testsome"}
ALLNAMES = START | COMPLETE | POLL | COMPLETE_ALL | PARTIAL


def relevant(repo):
    """Functions whose transitive body starts or completes requests (helpers to analyse in place)."""
    direct = set()
    for f in repo.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in START | COMPLETE_ALL | {"Wait", "wait"}:
                direct.add(f)
    return direct


def roots(t):
    """Underlying buffers of a communication argument."""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.k in ("item", "attr"):
            stack.append(x.a[0])
        elif x.k in ("tuple",):
            stack += list(x.a[0])[:1]
        elif x.k == "list":
            stack += list(x.a[1])[:1]
        elif x.k == "call" and x.a[1].k == "attr" and x.a[1].a[1] in VIEWS:
            stack.append(x.a[1].a[0])
        elif x.k == "call" and x.a[2] and x.a[1].k in ("bound", "attr"):
            stack += list(x.a[2])[:1]
        elif x.k == "call" and x.a[2]:
            stack += list(x.a[2])[:1] if x.a[1].k == "g" and not str(x.a[1].a[0]).startswith("numpy.empty") else []
            out.add(x)
        elif x.k in ("phi",):
            stack += list(x.a[0])
        elif x.k == "bin":
            stack += [y for y in x.a if isinstance(y, Term)]
            out.add(x)
        elif x.k in ("param", "unk", "loopvar", "new", "call", "enter", "aug", "bin"):
            out.add(x)
    return frozenset(out)


def whole(t, holders):
    """The parts of a term, without what is reached through only one place or a part of a container."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "item" and len(x.a) == 2 and (x.a[0] in holders or x.a[0].k == "comp") and part(x.a[1]):
            continue
        stack += list(x.subs())
    return seen


def part(i):
    if i.k == "slice":
        return any(isinstance(y, Term) and not (y.k == "const" and y.a[-1] in (None, 0, 1, -1) and (j, y.a[-1]) in
                                                ((0, None), (0, 0), (1, None), (2, None), (2, 1), (2, -1)))
                   for j, y in enumerate(i.a))
    return i.k == "const" and isinstance(i.a[-1], int)


class Req(Client):
    """mon: frozenset of (site, kind, holder term or None, buffers)."""

    max_states = 48
    max_depth = 4

    def __init__(self, res, f, rel):
        self.res, self.f, self.rel = res, f, rel
        self.sites = set()
        self.cache = {}

    def initial(self, func):
        return frozenset()

    def inline(self, eng, callee, depth):
        return callee in self.rel or callee.parent is not None and callee.parent in eng.stack

    def on_call(self, eng, st, node, fn, args, kws, callee):
        name = fn.a[1] if fn.k == "attr" else (fn.a[0].split(".")[-1] if fn.k == "g" and isinstance(fn.a[0], str) else None)
        if name in START and callee is None:
            self.sites.add((eng.func.module.rel, node.lineno))
            buf = args[0] if args else dict(kws).get("buf", dict(kws).get("obj"))
            req = mk("req", id(node), name)
            mon = frozenset(
                list(st.mon) + [(id(node), name, None, roots(buf) if buf is not None and name in RECV else frozenset(), self._desc(eng, node))]
            )
            s = st.copy()
            s.mon = mon
            return ([(s, req)], [st])
        if name in POLL and fn.k == "attr":
            if id(node) in self.thrown_away(eng.func):
                return None  # one look at the request, the answer unused
            if id(node) in self.in_comp(eng.func):
                return self.complete(eng, st, fn.a[0], node, name)
            return ([(st, mk("poll", fn.a[0], id(node)))], [])
        if name in COMPLETE and fn.k == "attr":
            return self.complete(eng, st, fn.a[0], node, name)
        if name in COMPLETE_ALL:
            tgt = args[0] if args else (fn.a[0] if fn.k == "attr" else None)
            if tgt is not None:
                return self.complete(eng, st, tgt, node, name)
        if name in ("append", "extend", "insert", "add") and fn.k == "attr" and args:
            return self.hold(st, fn.a[0], args[-1])
        # a received buffer handed to computation
        if name not in ALLNAMES and name not in ("Barrier", "barrier"):
            if id(node) not in self.in_start(eng.func):
                for a in args:
                    self.use(eng, st, a, node)
                if fn.k == "attr" and callee is None and name not in VIEWS:
                    self.use(eng, st, fn.a[0], node)
        return None

    def _nodes(self, f, what):
        c = self.cache.get((f, what))
        if c is None:
            c = self.cache[f, what] = set()
            for n in ast.walk(f.node):
                if what == "expr" and isinstance(n, ast.Expr):
                    c.add(id(n.value))
                elif what == "comp" and isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                    c |= {id(x) for x in ast.walk(n)}
                elif what == "start" and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in START:
                    c |= {id(x) for x in ast.walk(n)}
        return c

    def thrown_away(self, f):
        return self._nodes(f, "expr")

    def in_comp(self, f):
        return self._nodes(f, "comp")

    def in_start(self, f):
        return self._nodes(f, "start")

    def on_branch(self, eng, st, term, taken, node):
        while term.k == "not":
            term, taken = term.a[0], not taken
        if taken and term.k == "poll":
            return self.complete(eng, st, term.a[0], node, "Test")[0][0][0]
        return st

    def _desc(self, eng, node):
        return f"{eng.func.qualname}:{ast.unparse(node.func)}"

    def reqs_in(self, st, t):
        """Request sites reachable from a term (directly or through containers)."""
        sites = set()
        subs = set(whole(t, {e[2] for e in st.mon if e[2] is not None}))
        for x in subs:
            if x.k == "req":
                sites.add(x.a[0])
        for site, _n, holder, _b, _d in st.mon:
            if holder is not None and holder in subs:
                sites.add(site)
        return sites

    def complete(self, eng, st, t, node, name):
        sites = self.reqs_in(st, t)
        s = st
        if sites:
            s = st.copy()
            s.mon = frozenset(e for e in st.mon if e[0] not in sites)
        return ([(s, mk("unk", "status", id(node)))], [])

    def hold(self, st, cont, val):
        sites = {x.a[0] for x in val.walk() if x.k == "req"}
        if not sites:
            return None
        s = st.copy()
        if any(x.k == "param" for x in [cont]):
            s.mon = frozenset(e for e in st.mon if e[0] not in sites)  # handed to the caller's list
        else:
            s.mon = frozenset((e[0], e[1], cont, e[3], e[4]) if e[0] in sites else e for e in st.mon)
        return ([(s, mk("const", "NoneType", None))], [])

    def on_aug(self, eng, st, old, v, node):
        r = self.hold(st, old, v)
        return r[0][0][0] if r else st

    def on_store_item(self, eng, st, base, idx, val, node):
        self.use(eng, st, val, node)
        r = self.hold(st, base, val)
        return r[0][0][0] if r else st

    def on_store_attr(self, eng, st, base, attr, val, node):
        r = self.hold(st, base, val)
        return r[0][0][0] if r else st

    def on_loop_zero(self, eng, st, it, node):
        sites = self.reqs_in(st, it)
        if sites:
            st = st.copy()
            st.mon = frozenset(e for e in st.mon if e[0] not in sites)
        return st

    def on_loop_left(self, eng, st, it, node, entry):
        """Left early, the loop has not seen the rest of what it runs over."""
        back = {e for s in entry for e in s.mon if e[0] in self.reqs_in(s, it)} - st.mon
        if back:
            st = st.copy()
            st.mon = st.mon | back
        return st

    def use(self, eng, st, val, node):
        if not st.mon:
            return
        rs = roots(val)
        for site, name, holder, bufs, desc in st.mon:
            hit = bufs & rs
            if hit:
                self.res.add(
                    "buffer-used-before-completion", eng.func.qualname, desc.split(":", 1)[1], eng.func.loc(node),
                    f"the buffer of the pending {name} posted by {desc} is used before the request completed",
                )

    def on_return(self, eng, st, val, node):
        self.use(eng, st, val, node)
        return st

    def judge(self, eng, st, val):
        handed = {x.a[0] for x in val.walk() if x.k == "req"} | self.reqs_in(st, val)
        for site, name, holder, bufs, desc in st.mon:
            if site in handed:
                continue
            self.res.add(
                "request-not-completed", self.f.qualname, desc.split(":", 1)[1], self.f.loc(),
                f"a path returns from {self.f.short()} while the {name} request started by {desc} has not been waited for",
            )


def run(repo, tier):
    res = Result(stats={"functions": 0, "request_sites": 0, "budget_exceeded": 0, "paths_ended": 0})
    rel = relevant(repo)
    sites = set()
    for f in repo.all_functions():
        if f.parent is not None:
            continue
        called = f in rel or any(
            isinstance(n, ast.Call) and repo.resolve_expr(n.func, f.module, f) in rel for n in walk_scope(f.node)
        )
        if not called:
            continue
        c = Req(res, f, rel)
        eng = Engine(repo, c)
        res.stats["functions"] += 1
        try:
            o = eng.run(f)
            res.stats["paths_ended"] += len(o.ret)
            for s, v in o.ret:
                c.judge(eng, s, v)
        except Budget:
            res.stats["budget_exceeded"] += 1
        sites |= c.sites
    res.stats["request_sites"] = len(sites)
    res.floors = {"request_sites": 5, "functions": 4}
    res.explanation = (
        "Typestate over request handles: every non-blocking send/receive site of the package is tracked along every path of every "
        "function that reaches one (helpers analysed in place, containers of requests followed); no path may return normally with an "
        "incomplete request, nor read a receive buffer while its request is pending."
    )
    res.assumptions = ["a get_status poll, and a Test within a comprehension over the requests, counts as completing them", "paths that raise are outside the rule"]
    return res


POS = """
import numpy as np
def dropped(comm, x):
    comm.Isend(x, dest=0)
def overwritten(comm, x, y):
    r = comm.Irecv(y, source=0)
    r = comm.Isend(x, dest=0)
    r.Wait()
    return y
def early(comm, y, out):
    r = comm.Irecv(y, source=0)
    out[:] = y
    r.Wait()
def looked(comm, y, out):
    r = comm.Irecv(y, source=0)
    r.Test()
    return y
def most(comm, y):
    rs = [comm.Irecv(y[i], source=i) for i in range(comm.size)]
    MPI.Request.Waitall(rs[1:])
def stops(comm, y, st):
    rs = []
    for i in range(comm.size):
        rs.append(comm.Irecv(y[i], source=i))
    for r in rs:
        r.Wait(status=st)
        if st.error:
            break
def copied(comm, y):
    rs = []
    buf = np.empty(4)
    for i in range(comm.size):
        rs.append(comm.Irecv(buf[i:], source=i))
    z = buf.reshape(2, 2).copy()
    for r in rs:
        r.Wait()
    return z
def partial(comm, y):
    rs = []
    for i in range(comm.size):
        rs.append(comm.Irecv(y[i], source=i))
    for i, r in enumerate(rs):
        if i == comm.rank:
            continue
        r.Wait()
    return y
"""
NEG = """
def fine(comm, y, x):
    rs = []
    for i in range(comm.size):
        rs.append((i, comm.Irecv(y[i], source=i)))
    rs += [(0, comm.Isend(x, dest=1))]
    for _, r in rs:
        r.Wait()
    return y
def fine2(comm, y):
    rs = [comm.Irecv(y[i], source=i) for i in range(comm.size)]
    MPI.Request.Waitall(rs)
    return y
def fine3(comm, y, on):
    r = None
    if on:
        r = comm.Irecv(y, source=0)
    if r is not None:
        r.Wait()
def fine4(comm, y):
    rs = [comm.Irecv(y[i], source=i) for i in range(comm.size)]
    for i in range(len(rs)):
        rs[i].Wait()
    r = comm.Irecv(y, source=0)
    while not r.Test():
        time.sleep(1)
    return y
"""


def selftest():
    got = {f.construct.split(".")[-1] for f in run(Repo(sources={"caput/x.py": POS}), "q").findings}
    neg = run(Repo(sources={"caput/x.py": NEG}), "q").findings
    return [(n, n in got) for n in ("dropped", "overwritten", "early", "partial", "looked", "most", "stops", "copied")] + [("negatives", not neg)]
