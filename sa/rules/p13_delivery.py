"""P13: every product of a task reaches every task that asked for it, once, and in the order produced."""

import ast
import itertools

from ..core import AnalysisError, ClassInfo, Repo
from ..flow import NONE, Client, alts, const, is_const, mk
from ..report import Result
from ..small import SmallEngine, cell, is_cell

OTHER = mk("exc", "RuntimeError")
STOP = mk("exc", "StopIteration")
QUEUES = {"queue.Queue": "fifo", "queue.SimpleQueue": "fifo", "collections.deque": "deque", "queue.LifoQueue": "lifo", "queue.PriorityQueue": "sorted", "multiprocessing.Queue": "fifo"}
PUT = {"put": "back", "put_nowait": "back", "append": "back", "appendleft": "front"}
GET = {"get": "queue", "get_nowait": "queue", "popleft": "front", "pop": "back"}


def product(n):
    return mk("obj", "product", n)


class Base(Client):
    max_states = 600
    max_depth = 7
    keep_heap = True
    assume_total = True

    def __init__(self, repo, cls):
        self.repo, self.cls = repo, cls
        self.me = mk("self", cls)

    def initial(self, f):
        return ()

    @staticmethod
    def ev(st, e):
        return st.with_mon(st.mon + (e,))

    def on_unknown(self, eng, st, node, it=None):
        return st if ("imprecise",) in st.mon else self.ev(st, ("imprecise",))

    def inline(self, eng, callee, depth):
        return callee.module.name.startswith("caput.pipeline") or callee.module.name == "caput.pipeline"


class Queueing(Base):
    """Effects of handing one product to one task."""

    fresh = 0

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if fn.k == "g" and fn.a[0] in ("hasattr", "getattr") and len(args) >= 2 and args[0].k == "self" and is_const(args[1]) and args[1].a[1] == "_pipeline_state":
            h = st.heap.get((args[0], "_pipeline_state"))
            return [(st, const(h is not None) if fn.a[0] == "hasattr" else h if h is not None else args[2] if len(args) > 2 else NONE)]
        ext = fn.a[0] if fn.k == "g" else f"{fn.a[0].a[0]}.{fn.a[1]}" if fn.k == "attr" and fn.a[0].k == "g" else None
        if ext in QUEUES:
            Queueing.fresh += 1
            limit = [v for k, v in kws if k in ("maxsize", "maxlen") and not (is_const(v) and not v.a[1])] + [a for a in args[(1 if QUEUES[ext] == "deque" else 0):] if not (is_const(a) and not a.a[1])]
            return [(st, mk("obj", "queue", f"new{Queueing.fresh}", "limited" if limit else QUEUES[ext]))]
        if fn.k == "attr" and fn.a[0].k == "obj" and fn.a[0].a[0] == "queue":
            q, m = fn.a[0], fn.a[1]
            vals = list(args) + [v for _, v in kws]
            if m in PUT:
                return [(self.ev(st, ("put", q.a[1], m, vals[0] if vals else NONE)), NONE)]
            if m in GET:
                at = args[0].a[1] if m == "pop" and args and is_const(args[0]) else None
                return [(self.ev(st, ("get", q.a[1], m, at)), product(f"q{q.a[1]}"))]
            if m in ("empty", "qsize", "__len__"):
                return [(st, const(False) if m == "empty" else const(1))]
        if fn.k == "g" and fn.a[0] == "len" and args and args[0].k == "obj" and args[0].a[0] == "queue":
            return [(st, const(1))]
        if fn.k == "attr" and fn.a[1] in PUT and fn.a[0].k != "obj":
            st = self.on_unknown(eng, st, node)
            return [(st, NONE)]
        if fn.k == "bound" and fn.a[0].k == "self" and fn.a[1].name in ("setup", "next", "finish", "validate"):
            return [(st, mk("unk", "user", id(node)))]
        return None


def run(repo: Repo, tier="quick"):
    res = Result()
    task = repo.cls("caput.pipeline._pipeline.Task")
    mgr = repo.cls("caput.pipeline._pipeline.Manager")
    f = task.lookup("_pipeline_queue_product")
    setup = task.lookup("_setup_keys")
    nxt = task.lookup("_pipeline_next")
    if f is None or setup is None or nxt is None:
        raise AnalysisError("the delivery routines of Task are gone")
    size = 3 if tier == "thorough" else 2
    stats = {"handover_scenarios": 0, "runner_scenarios": 0, "paths": 0}
    handover(repo, res, task, f, size, stats)
    kinds = storage(repo, res, task, setup, stats)
    order(repo, res, task, f, nxt, kinds, stats)
    manager(repo, res, mgr, task, stats, size)
    res.stats = stats
    res.floors = {"handover_scenarios": 20, "runner_scenarios": 20, "paths": 40}
    res.explanation = (
        "The routine that hands a product to a task, the routine that creates a task's slots and queues, and the manager's main loop are interpreted abstractly for every assignment of "
        "matching and non-matching names to up to two (three) inputs, every state of the slots, every pattern of up to three scheduled and finished tasks and every outcome of a step; the "
        "recorded hand-overs are compared with 'each product once to each task, slot and queue that lists its name, in order'."
    )
    res.assumptions = ["queue.Queue and deque keep insertion order", "logging and profiling do not raise"]
    return res


def handover(repo, res, task, f, size, stats):
    ps = f.bound_params()
    if len(ps) < 2:
        raise AnalysisError("the hand-over routine no longer takes a name and a product")

    def bad(rule, detail, msg):
        res.add(rule, f.qualname, detail, f.loc(), msg)

    names = ["k", "x"]
    vecs = [v for n in range(size + 1) for v in itertools.product(names, repeat=n)]
    for req in vecs:
        for inp in vecs:
            modes = ["open", "req-used", "in-used"] if size <= 2 or (len(req) + len(inp) <= 4) else ["open"]
            for mode in modes + (["req-set"] if "k" in req else []):
                c = Queueing(repo, task)
                heap = {}
                rk, h = cell("rk", *[const(x) for x in req])
                heap |= h
                ik, h = cell("ik", *[const(x) for x in inp])
                heap |= h
                heap[(c.me, "_requires_keys")] = rk
                heap[(c.me, "_in_keys")] = ik
                rq, h = cell("rq", *[product("old") if mode == "req-set" and x == "k" else NONE for x in req])
                heap |= h
                iq, h = cell("iq", *[mk("obj", "queue", i, "fifo") for i in range(len(inp))])
                heap |= h
                heap[(c.me, "_requires")] = NONE if mode == "req-used" else rq
                heap[(c.me, "_in")] = NONE if mode == "in-used" else iq
                o = SmallEngine(repo, c).run(f, self_cls=task, heap=heap, bind={ps[0]: const("k"), ps[1]: product("new")})
                stats["handover_scenarios"] += 1
                stats["paths"] += len(o.ret) + len(o.exc)
                late = (mode in ("req-used", "req-set") and "k" in req) or (mode == "in-used" and "k" in inp)
                for s, v in o.ret:
                    if ("imprecise",) in s.mon:
                        stats["undecided"] = stats.get("undecided", 0) + 1
                        continue
                    if late:
                        what = "already holds a product of that name" if mode == "req-set" else "has already run the stage it is for"
                        bad("late-product-dropped", mode, f"a product for a task that {what} is accepted or dropped without an error")
                        continue
                    puts = sorted(((e[1], e[3]) for e in s.mon if e[0] == "put"), key=lambda t: str(t[0]))
                    want = [(i, product("new")) for i, x in enumerate(inp) if x == "k"]
                    if mode != "in-used" and puts != want:
                        bad("wrong-delivery", "in", f"with input names {list(inp)} the product 'k' is put on the queues {[p[0] for p in puts]} instead of exactly {[w[0] for w in want]}")
                    if mode != "req-used":
                        got = SmallEngine(repo, c).known(rq, s)
                        exp = [product("new") if x == "k" else NONE for x in req]
                        if got is None:
                            # the slots were replaced by another list
                            nv = s.heap.get((c.me, "_requires"))
                            got = SmallEngine(repo, c).known(nv, s) if nv is not None else None
                        else:
                            nv = s.heap.get((c.me, "_requires"))
                            if nv is not rq and nv is not None:
                                got = SmallEngine(repo, c).known(nv, s)
                        if got != exp:
                            bad("wrong-delivery", "requires", f"with required names {list(req)} the product 'k' does not fill exactly the slots {[i for i, x in enumerate(req) if x == 'k']}")
                    took = "k" in req or "k" in inp
                    tv = {SmallEngine(repo, c).truth(s, x) for x in alts(v)}
                    if tv != {took}:
                        bad("wrong-report", "return", f"required names {list(req)}, input names {list(inp)}: reports {'not ' if took else ''}having taken the product")
                if not late and not o.ret:
                    bad("wrong-delivery", "raises", f"with required names {list(req)} and input names {list(inp)} a product 'k' is rejected")


def storage(repo, res, task, f, stats):
    """One slot per required name and one queue of its own per input name."""
    kinds = set()
    ps = f.bound_params()
    for nr, ni in itertools.product(range(3), repeat=2):
        c = Queueing(repo, task)
        heap, bind = {}, {}
        for p in ps:
            n = ni if p.startswith("in") else nr if p.startswith("req") else 0
            k, h = cell(f"arg-{p}", *[const(f"{p}{i}") for i in range(n)])
            heap |= h
            bind[p] = k
        if not any(p.startswith("in") for p in ps) or not any(p.startswith("req") for p in ps):
            raise AnalysisError("the routine creating a task's inputs has other parameters")
        o = SmallEngine(repo, c).run(f, self_cls=task, heap=heap, bind=bind)
        stats["handover_scenarios"] += 1
        stats["paths"] += len(o.ret) + len(o.exc)
        if not o.ret:
            res.add("wrong-storage", f.qualname, "never", f.loc(), f"a task with {nr} required and {ni} input names can not be set up")
        for s, _v in o.ret:
            if ("imprecise",) in s.mon:
                stats["undecided"] = stats.get("undecided", 0) + 1
                continue
            e = SmallEngine(repo, c)
            rq, iq = s.heap.get((c.me, "_requires")), s.heap.get((c.me, "_in"))
            r = e.known(rq, s) if rq is not None else None
            q = e.known(iq, s) if iq is not None else None
            if r != [NONE] * nr:
                res.add("wrong-storage", f.qualname, "requires", f.loc(), f"a task with {nr} required names does not start with {nr} empty slots")
            if q is None or len(q) != ni or len(set(q)) != ni or any(x.k != "obj" or x.a[0] != "queue" for x in q):
                res.add("wrong-storage", f.qualname, "in", f.loc(), f"a task with {ni} input names does not get {ni} separate queues")
            else:
                kinds |= {x.a[2] for x in q}
            for attr, want in (("_requires_keys", [p for p in ps if p.startswith("req")]), ("_in_keys", [p for p in ps if p.startswith("in")]), ("_out_keys", [p for p in ps if p.startswith("out")])):
                v = s.heap.get((c.me, attr))
                got = e.known(v, s) if v is not None else None
                exp = e.known(bind[want[0]], s) if want else None
                if got != exp:
                    res.add("wrong-storage", f.qualname, attr, f.loc(), f"the names stored in {attr} are not the ones the task was given")
    return kinds


def order(repo, res, task, f, nxt, kinds, stats):
    """Queues are read in the order they are filled."""
    ps = f.bound_params()
    put = get = None
    for kind in sorted(kinds):
        c = Queueing(repo, task)
        heap = {}
        for nm, xs in (("_requires_keys", []), ("_in_keys", [const("k")]), ("_requires", []), ("_in", [mk("obj", "queue", 0, kind)])):
            k, h = cell(nm, *xs)
            heap |= h
            heap[(c.me, nm)] = k
        o = SmallEngine(repo, c).run(f, self_cls=task, heap=dict(heap), bind={ps[0]: const("k"), ps[1]: product("new")})
        puts = {e[2] for s, _ in o.ret for e in s.mon if e[0] == "put"}
        h2 = dict(heap)
        h2[(c.me, "_pipeline_state")] = const("next")
        o = SmallEngine(repo, c).run(nxt, self_cls=task, heap=h2)
        gets = {(e[2], e[3]) for s, _ in o.ret for e in s.mon if e[0] == "get"}
        stats["paths"] += len(o.ret)
        for put in puts:
            for get, at in gets:
                ends = (PUT[put], "front" if at == 0 else GET[get])
                ok = ends in (("back", "queue"), ("back", "front"), ("front", "back"))
                if kind in ("lifo", "sorted", "limited"):
                    ok = False
                if not ok:
                    res.add("order-lost", task.qualname, f"{kind}:{put}/{get}", f.loc(), f"inputs queued with '{put}' on a {kind} queue are taken with '{get}': not every product in the order produced")
        if puts and not gets:
            res.add("order-lost", task.qualname, f"{kind}:never", nxt.loc(), "queued inputs are never taken")


# -- the manager -------------------------------------------------------------------------------------


class Loop(Base):
    """One round of the manager's main loop."""

    def __init__(self, repo, mgr, task_cls, idx, head, outcome, match):
        super().__init__(repo, mgr)
        self.idx, self.head, self.outcome, self.match = idx, head, outcome, match
        def exc(n):
            e = repo.try_cls(f"caput.pipeline._pipeline.{n}")
            if e is None:
                raise AnalysisError(f"{n} is gone")
            return mk("exc", e)
        self.missing, self.finished = exc("_PipelineMissingData"), exc("_PipelineFinished")

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if isinstance(callee, ClassInfo) and not callee.module.name.startswith("caput.pipeline"):
            return [(st, mk("obj", "helper", callee.name))]
        name = fn.a[1].name if fn.k == "bound" else fn.a[1] if fn.k == "attr" else None
        recv = fn.a[0] if fn.k in ("bound", "attr") else None
        if recv is not None and recv.k == "self" and name == "_next_task":
            n = sum(1 for e in st.mon if e[0] == "round")
            t = st.heap.get((self.me, "tasks"))
            xs = eng.known(t, st) if t is not None else None
            if n == 0:
                s = self.ev(st, ("round",)).copy()
                s.heap[(self.me, "_task_idx")] = const(self.idx)
                s.heap[(self.me, "_task_head")] = const(self.head)
                return [(s, xs[self.idx] if xs is not None else NONE)]
            hd = st.heap.get((self.me, "_task_head"))
            s = self.ev(st, ("again", tuple(xs) if xs is not None else None, hd.a[1] if hd is not None and is_const(hd) else None))
            return [], [(s, STOP)]
        if name == "_pipeline_queue_product" and not (recv.k == "obj" and recv.a[0] == "task"):
            return [(self.on_unknown(eng, st, node), mk("unk", "taken", id(node)))]
        if recv is not None and recv.k == "obj" and recv.a[0] == "task":
            if name == "_pipeline_next":
                st = self.ev(st, ("step", recv))
                if self.outcome == "missing":
                    return [], [(st, self.missing)]
                if self.outcome == "finished":
                    return [], [(st, self.finished)]
                if self.outcome == "error":
                    return [], [(st, OTHER)]
                return [(st, self.outcome)]
            if name == "_pipeline_advance_state":
                return [(self.ev(st, ("advance", recv)), NONE)]
            if name == "_pipeline_queue_product":
                vals = tuple(args) + tuple(v for _, v in kws)
                return [(self.ev(st, ("offer", recv, vals)), mk("unk", "taken", len(st.mon)))]
            return [(st, mk("unk", "task", id(node)))]
        if name in ("search", "match", "fullmatch") and recv is not None and args and is_const(args[-1]):
            return [(st, const(True) if self.match.get(args[-1].a[1], True) else NONE)]
        return None


def simulate(repo, mgr, task_cls, f, pattern, idx, head, outcome, keys, match=None, as_tuple=False):
    """All paths of the main loop when task `idx` of `pattern` is stepped with the given outcome."""
    c = Loop(repo, mgr, task_cls, idx, head, outcome if not isinstance(outcome, tuple) else mk("tuple", outcome), match or {})
    heap = {}
    ts = [mk("obj", "task", i) if p else NONE for i, p in enumerate(pattern)]
    k, h = cell("tasks", *ts)
    heap |= h
    heap[(c.me, "tasks")] = k
    for t in ts:
        if t is not NONE:
            if as_tuple:
                heap[(t, "_out_keys")] = mk("tuple", tuple(const(x) for x in keys))
            else:
                ok, h = cell(("out", t.a[1]), *[const(x) for x in keys])
                heap |= h
                heap[(t, "_out_keys")] = ok
            heap[(t, "breakpoint")] = const(False)
    heap[(c.me, "interactive")] = const(False)
    heap[(c.me, "enable_breakpoints")] = const(False)
    return SmallEngine(repo, c).run(f, self_cls=mgr, heap=heap), ts


def manager(repo, res, mgr, task_cls, stats, size):
    f = mgr.lookup("runner")
    if f is None:
        raise AnalysisError("the manager's main loop is gone")

    def bad(rule, detail, msg):
        res.add(rule, f.qualname, detail, f.loc(), msg)

    n = 3 if size > 2 else 2
    patterns = [p for k in range(1, n + 1) for p in itertools.product((True, False), repeat=k) if any(p)]
    for pat in patterns:
        head = pat.index(True)
        for idx, on in enumerate(pat):
            if not on:
                continue
            outs = [(("a",), product("p0"), True, [("a", product("p0"))]), (("a",), (product("p0"),), False, [("a", product("p0"))]), (("a",), NONE, True, []), ((), product("p0"), False, [])]
            outs.append((("a", "b"), (product("p0"), product("p1")), False, [("a", product("p0")), ("b", product("p1"))]))
            for keys, out, tup, want in outs:
                for match in ({}, *([{k: False} for k in keys] if want else [])):
                    o, ts = simulate(repo, mgr, task_cls, f, pat, idx, head, out, keys, match, tup)
                    stats["runner_scenarios"] += 1
                    stats["paths"] += len(o.ret) + len(o.exc) + len(o.fall)
                    exp = {t: [(k, p) for k, p in want if match.get(k, True)] for t in ts if t is not NONE}
                    ends = [s for s, _ in o.ret] + list(o.fall)
                    if not ends:
                        bad("round-fails", "product", "a round in which a task hands on a product does not complete")
                    for s in ends:
                        if ("imprecise",) in s.mon:
                            stats["undecided"] = stats.get("undecided", 0) + 1
                            continue
                        got = {t: [] for t in exp}
                        for e in s.mon:
                            if e[0] == "offer":
                                k = e[2][0].a[1] if e[2] and is_const(e[2][0]) else None
                                got.setdefault(e[1], []).append((k, e[2][1] if len(e[2]) > 1 else None))
                        if got != exp:
                            t = next(t for t in got if got[t] != exp.get(t))
                            bad("not-delivered" if len(got[t]) < len(exp.get(t, [])) else "wrong-delivery", "runner", f"task {t.a[1]} of {len(pat)} is offered {[x[0] for x in got[t]]} of the products {[k for k, _ in exp.get(t, [])]} that task {idx} handed on")
            # a wrong number of products is an error
            o, ts = simulate(repo, mgr, task_cls, f, pat, idx, head, (product("p0"), product("p1")), ("a", "b", "c"))
            if o.ret or o.fall:
                bad("wrong-delivery", "count", "a task handing on fewer products than it names is not reported")
    # errors of a task end the run
    run_ = mgr.lookup("run")
    o, _ts = simulate(repo, mgr, task_cls, f, (True, True), 0, 0, "error", ("a",))
    if o.ret or o.fall or not any(e is OTHER for _s, e in o.exc):
        bad("error-swallowed", "runner", "an error raised by a task does not leave the main loop")
    if run_ is not None:
        drive(repo, res, mgr, run_)


class Drive(Base):
    def on_call(self, eng, st, node, fn, args, kws, callee):
        name = fn.a[1].name if fn.k == "bound" else fn.a[1] if fn.k == "attr" else None
        if name == "runner":
            return [(st, mk("obj", "runner"))]
        if fn.k == "g" and fn.a[0] == "next" and args and args[0].k == "obj" and args[0].a[0] == "runner" or name in ("__next__", "send") and fn.a[0].k == "obj":
            more = [] if len(st.mon) >= 3 else [(self.ev(st, ("yielded",)), NONE)]
            if len(args) > 1:
                more.append((self.ev(st, ("done",)), args[1]))
                return more, [(self.ev(st, ("error",)), OTHER)]
            return more, [(self.ev(st, ("done",)), STOP), (self.ev(st, ("error",)), OTHER)]
        return None


def drive(repo, res, mgr, f):
    """`run` drives the main loop to its end and lets errors out."""
    if any(isinstance(n, (ast.For, ast.YieldFrom)) for n in ast.walk(f.node)):
        # iteration ends exactly when the generator does; only a handler could change that
        broad = [h for n in ast.walk(f.node) if isinstance(n, ast.Try) for h in n.handlers]
        if not broad:
            return
    o = SmallEngine(repo, Drive(repo, mgr)).run(f, self_cls=mgr, heap={})
    for s in [s for s, _ in o.ret] + list(o.fall):
        if ("error",) in s.mon:
            res.add("error-swallowed", f.qualname, "run", f.loc(), "an error raised by a task does not reach the caller of run")
        elif ("done",) not in s.mon:
            res.add("stops-early", f.qualname, "run", f.loc(), "run returns before the pipeline is finished")


__all__ = ["run", "simulate", "is_cell"]
