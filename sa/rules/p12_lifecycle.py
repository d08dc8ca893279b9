"""P12: the stages of a pipeline task run in order, each under its condition, and never again once left."""

import ast
import itertools

from ..core import AnalysisError, ClassInfo, FuncInfo, Repo, dotted
from ..flow import NONE, Client, alts, const, is_const, mk
from ..report import Result
from ..small import SmallEngine, cell
from .p13_delivery import Base, simulate

STATE = "_pipeline_state"
USER = ("setup", "next", "finish")
STATES = ("setup", "next", "finish", "raise")
OTHER = mk("exc", "RuntimeError")


class Life(Client):
    """Events of one step of a task that starts in a given state with given inputs."""

    max_states = 400
    max_depth = 6
    stable_attrs = {STATE, "_requires", "_in", "_requires_keys", "_in_keys", "_out_keys", "_num_iters", "limit_outputs"}

    def __init__(self, repo, cls, value=None):
        self.repo, self.cls, self.value = repo, cls, value
        stop = repo.try_cls("caput.pipeline.exceptions.PipelineStopIteration")
        self.stop = mk("exc", stop if stop is not None else "PipelineStopIteration")
        self.me = mk("self", cls)

    def initial(self, f):
        return ()

    def inline(self, eng, callee, depth):
        return callee.name not in USER and callee.name != "validate"

    @staticmethod
    def ev(st, e):
        return st.with_mon(st.mon + (e,))

    def on_unknown(self, eng, st, node, it=None):
        if it is not None and it.k == "call" and it.a[1].k == "g" and str(it.a[1].a[0]).startswith("user."):
            return st  # the products themselves
        return st if ("imprecise",) in st.mon else self.ev(st, ("imprecise",))

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if fn.k == "g" and fn.a[0] in ("hasattr", "getattr") and len(args) >= 2 and args[0].k == "self" and is_const(args[1]) and args[1].a[1] == STATE:
            h = st.heap.get((args[0], STATE))
            if fn.a[0] == "hasattr":
                return [(st, const(h is not None))]
            return [(st, h if h is not None else (args[2] if len(args) > 2 else NONE))]
        if fn.k == "attr" and fn.a[0].k == "obj" and fn.a[0].a[0] == "queue":
            q = fn.a[0]
            n = q.a[2]
            if fn.a[1] == "empty":
                return [(st, const(n == 0))]
            if fn.a[1] in ("qsize", "__len__"):
                return [(st, const(n))]
            if fn.a[1] in ("get", "get_nowait", "popleft", "pop"):
                return [(self.ev(st, ("get", q.a[1])), mk("obj", "product", q.a[1]))]
            return None
        if fn.k == "g" and fn.a[0] == "len" and args and args[0].k == "obj" and args[0].a[0] == "queue":
            return [(st, const(args[0].a[2]))]
        name = None
        if fn.k == "bound" and fn.a[0].k == "self":
            name = fn.a[1].name
        elif fn.k == "attr" and fn.a[0].k == "self":
            name = fn.a[1]
        if name in USER:
            st = self.ev(st, ("call", name, tuple(args) + tuple(v for _, v in kws)))
            if self.value is not None:
                return [(st, self.value)]
            exc = [(self.ev(st, ("other",)), OTHER)]
            if name == "next":
                exc.append((self.ev(st, ("stop",)), self.stop))
            return [(st, mk("call", id(node), mk("g", f"user.{name}"), (), ()))], exc
        return None

    def on_store_attr(self, eng, st, base, attr, val, node):
        if attr == STATE and base.k == "self":
            e = ("state", val.a[1] if is_const(val) else None)
            return st if st.mon[-1:] == (e,) else self.ev(st, e)
        return st


class Pick(Base):
    """The choice of the next task to run."""

    def on_call(self, eng, st, node, fn, args, kws, callee):
        name = callee.name if isinstance(callee, FuncInfo) else None
        if name == "bcast" or fn.k == "attr" and fn.a[1] == "bcast":
            return [(st, args[0])] if args else None
        return None


def step(repo, cls, f, start, requires=(), inputs=(), value=None, extra=None):
    """All outcomes of routine f for a task in state `start` with the given presence of inputs."""
    c = Life(repo, cls, value)
    heap = {(c.me, k): v for k, v in (extra or {}).items()}
    if start is not None:
        heap[(c.me, STATE)] = const(start)
        if start == "setup":
            heap[(c.me, "_requires")] = mk("list", 0, tuple(mk("obj", "product", i) if r else NONE for i, r in enumerate(requires)))
            heap[(c.me, "_requires_keys")] = mk("list", 1, tuple(const(f"r{i}") for i in range(len(requires))))
        if start in ("setup", "next"):
            heap[(c.me, "_in")] = mk("list", 2, tuple(mk("obj", "queue", i, n) for i, n in enumerate(inputs)))
            heap[(c.me, "_in_keys")] = mk("list", 3, tuple(const(f"i{i}") for i in range(len(inputs))))
    o = SmallEngine(repo, c).run(f, self_cls=cls, heap=heap)
    # outcomes that depend on sequences whose elements the analysis lost are not judged
    lost = any(("imprecise",) in s.mon for s, _ in o.ret + o.exc)
    o.ret = [(s, v) for s, v in o.ret if ("imprecise",) not in s.mon]
    o.exc = [(s, e) for s, e in o.exc if ("imprecise",) not in s.mon]
    return o, lost


def states_of(ev):
    return [e[1] for e in ev if e[0] == "state"]


def calls_of(ev):
    return [e[1] for e in ev if e[0] == "call"]


def run(repo: Repo, tier="quick"):
    res = Result()
    cls = repo.cls("caput.pipeline._pipeline.Task")
    nxt = cls.lookup("_pipeline_next")
    adv = cls.lookup("_pipeline_advance_state")
    if nxt is None or adv is None:
        raise AnalysisError("the step routines of Task are gone")
    stop = Life(repo, cls).stop
    paths = scen = 0
    size = 4 if tier == "thorough" else 3

    def vectors(vals):
        for n in range(size + 1):
            yield from itertools.product(vals, repeat=n)

    def bad(rule, f, detail, msg):
        res.add(rule, f.qualname, detail, f.loc(), msg)

    def scenarios(start):
        if start == "setup":
            return [(v, (1,)) for v in vectors((True, False))]
        if start == "next":
            return [((), v) for v in vectors((0, 1, 2))] if tier == "thorough" else [((), v) for v in vectors((0, 2))]
        return [((), ())]

    # --- advancing on its own: used when the inputs can no longer arrive
    for start in (None, *STATES):
        for req, inp in scenarios(start):
            scen += 1
            want = {None: "setup", "setup": "next" if all(req) else "finish", "next": "finish", "finish": "raise", "raise": "raise"}[start]
            o, lost = step(repo, cls, adv, start, req, inp)
            paths += len(o.ret) + len(o.exc)
            if not o.ret and not lost:
                bad("wrong-transition", adv, f"{start}->none", f"a task in state '{start}' can not be advanced")
            for s, _v in o.ret:
                ev = s.mon
                if calls_of(ev):
                    bad("stage-run-while-advancing", adv, f"{start}", f"advancing from '{start}' runs the stage '{calls_of(ev)[0]}'")
                end = states_of(ev)[-1] if states_of(ev) else start
                if end != want:
                    why = "" if start != "setup" or all(req) else " although a requirement never arrived"
                    bad("wrong-transition", adv, f"{start}->{end}", f"advancing from '{start}' leads to '{end}'{why} (expected '{want}')")

    refused = {}

    def refusals(start):
        """What a step raises when nothing at all has arrived."""
        if start not in refused:
            refused[start] = set()
            if start in ("setup", "next"):
                o, _ = step(repo, cls, nxt, start, (False,) if start == "setup" else (), (0,))
                refused[start] = {e for _s, e in o.exc if isinstance(e.a[0], ClassInfo)}
        return refused[start]

    # --- one step of the task
    for start in STATES:
        for req, inp in scenarios(start):
            scen += 1
            o, lost = step(repo, cls, nxt, start, req, inp)
            paths += len(o.ret) + len(o.exc)
            ready = all(req) if start == "setup" else all(inp) if start == "next" else True
            n = len(req) if start == "setup" else len(inp) if start == "next" else 0
            for s, v in o.ret:
                ev = s.mon
                calls, sts = calls_of(ev), states_of(ev)
                if ("other",) in ev:
                    bad("task-error-swallowed", nxt, start, f"an error raised by the task's '{calls[-1]}' stage does not reach the caller")
                    continue
                if start == "raise":
                    bad("runs-after-finish", nxt, start, "a finished task returns normally instead of reporting that it has finished")
                    continue
                if not ready:
                    bad("runs-without-inputs", nxt, start, f"a step in state '{start}' ends normally although an input is missing (inputs present: {[bool(x) for x in (req or inp)]})")
                    continue
                if calls != [start]:
                    bad("wrong-stage", nxt, f"{start}:{','.join(calls)}", f"in state '{start}' one step runs {calls or 'nothing'} instead of exactly '{start}'")
                    continue
                i = [k for k, e in enumerate(ev) if e[0] == "call"][0]
                if any(e[0] == "state" for e in ev[:i]):
                    bad("advanced-before-run", nxt, start, f"the task leaves state '{start}' before that stage has run")
                got = [x for a in ev[i][2] for x in ([a] if a.k != "star" else [a])]
                exp = [mk("obj", "product", k) for k in range(n)]
                if got != exp:
                    bad("inputs-not-passed", nxt, start, f"'{start}' is not given exactly the task's inputs in their order")
                if start == "next":
                    gets = sorted(e[1] for e in ev if e[0] == "get")
                    if gets != list(range(n)):
                        bad("inputs-not-passed", nxt, "queues", "one step does not take exactly one item from each input queue")
                end = sts[-1] if sts else start
                has_stop = ("stop",) in ev
                ok = {"setup": ("next",), "next": ("finish",) if has_stop else ("next", "finish"), "finish": ("raise",)}[start]
                if end not in ok:
                    bad("stop-not-honoured" if has_stop else "wrong-transition", nxt, f"{start}->{end}", f"after running '{start}' the task is in state '{end}' (expected {' or '.join(ok)})")
                vals = alts(v)
                if has_stop:
                    if not all(x is NONE for x in vals):
                        bad("stage-output-lost", nxt, "stop", "a stage that reported its end hands on a value")
                elif not all(x.k == "call" and x.a[1].k == "g" and x.a[1].a[0] == f"user.{start}" for x in vals):
                    bad("stage-output-lost", nxt, start, f"the value produced by '{start}' is not what the step returns")
            if start == "next" and ready and not lost and not any(("stop",) not in s.mon and (states_of(s.mon) or ["next"])[-1] == "next" for s, _v in o.ret):
                bad("wrong-transition", nxt, "next->finish", "the repeated stage can never run a second time")
            for s, e in o.exc:
                ev = s.mon
                if e is stop and ("stop",) in ev:
                    bad("stop-not-honoured", nxt, start, "the report that the repeated stage is done escapes as an error")
                if calls_of(ev) and start == "raise":
                    bad("runs-after-finish", nxt, start, f"a finished task runs '{calls_of(ev)[0]}' again")
                if ready and start != "raise" and not calls_of(ev) and isinstance(e.a[0], ClassInfo) and e in refusals(start):
                    bad("refuses-though-ready", nxt, start, f"a step in state '{start}' reports missing data although every input is present (an input may be empty or zero)")
                if not ready and calls_of(ev):
                    bad("runs-without-inputs", nxt, start, f"'{start}' is run although an input is missing")
                if not ready and any(x[0] == "get" for x in ev):
                    bad("inputs-consumed-early", nxt, start, "inputs are taken although another one is still missing")
            if (start == "raise" or not ready) and not lost and not any(isinstance(e.a[0], ClassInfo) for _s, e in o.exc):
                bad("runs-after-finish" if start == "raise" else "runs-without-inputs", nxt, start, "the step does not report to the manager that it cannot run")

    # --- the limit on the number of outputs
    for done in (0, 1, 2):
        for limit in (None, 1, 2, 3):
            for value in (NONE, mk("obj", "result")):
                scen += 1
                o, lost = step(repo, cls, nxt, "next", (), (1,), value, {"_num_iters": const(done), "limit_outputs": const(limit)})
                for s, _v in o.ret:
                    end = (states_of(s.mon) or ["next"])[-1]
                    n = done + (value is not NONE)
                    want = "finish" if limit is not None and value is not NONE and n >= limit else "next"
                    got = s.heap.get((Life(repo, cls).me, "_num_iters"))
                    if end != want and not (limit is not None and done >= limit):
                        bad("output-limit", nxt, f"{end}", f"after {n} outputs with a limit of {limit} the task is in state '{end}' (expected '{want}')")
                    if limit is not None and done < limit and got is not None and is_const(got) and got.a[1] != n:
                        bad("output-limit", nxt, "count", f"a step {'with' if value is not NONE else 'without'} output changes the number of outputs from {done} to {got.a[1]}")
    # --- nobody else changes the stage
    writers = 0
    allowed = {nxt, adv}
    reach = _reached(repo, cls, allowed)
    for g in repo.all_functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == STATE and isinstance(n.ctx, (ast.Store, ast.Del)):
                writers += 1
                if g not in reach:
                    res.add("foreign-state-change", g.qualname, STATE, g.loc(n), "changes the stage of a task outside the step routines")
            if isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == STATE:
                res.add("foreign-state-change", g.qualname, STATE, g.loc(n), "changes the stage of a task outside the step routines")
    # --- the manager moves a task on without running it only when nothing before it can still produce, and drops it when finished
    mgr = repo.cls("caput.pipeline._pipeline.Manager")
    forced = removed = 0
    run_ = mgr.lookup("runner")
    if run_ is None:
        raise AnalysisError("the manager's main loop is gone")
    width = 4 if tier == "thorough" else 3
    for pat in [p for k in range(1, width + 1) for p in itertools.product((True, False), repeat=k) if any(p)]:
        head = pat.index(True)
        for idx, on in enumerate(pat):
            if not on:
                continue
            for outcome in ("missing", "finished"):
                scen += 1
                o, ts = simulate(repo, mgr, cls, run_, pat, idx, head, outcome, ("a",))
                ends = [s for s, _ in o.ret] + list(o.fall)
                paths += len(ends) + len(o.exc)
                if not ends:
                    bad("round-fails", run_, outcome, f"a round in which a task reports {'missing inputs' if outcome == 'missing' else 'its end'} does not complete")
                for s in ends:
                    adv_ = [e[1] for e in s.mon if e[0] == "advance"]
                    after = [e for e in s.mon if e[0] == "again"]
                    left = [t for t in (after[0][1] or ()) if t is not NONE] if after else None
                    if any(e[0] == "offer" for e in s.mon):
                        bad("products-after-failure", run_, outcome, "products are handed on in a round in which the task did not run")
                    if outcome == "missing":
                        forced += 1
                        want = [ts[idx]] if idx == head else []
                        if adv_ != want:
                            bad("forced-advance", run_, adv.name, "moves a task on although tasks before it may still produce its inputs" if adv_ else "a task whose inputs can no longer arrive is never moved on")
                        if left is not None and left != [t for t in ts if t is not NONE]:
                            bad("task-dropped", run_, outcome, "a task that only lacks inputs is taken out of the schedule")
                    else:
                        removed += 1
                        if adv_:
                            bad("forced-advance", run_, outcome, "a finished task or another task is moved on")
                        if left is not None and left != [t for t in ts if t is not NONE and t is not ts[idx]]:
                            bad("finished-task-kept", run_, "handler", "a finished task stays in the schedule" if ts[idx] in left else "a task that has not finished is taken out of the schedule")
                        elif after and left and isinstance(after[0][2], int) and after[0][1].index(left[0]) != after[0][2]:
                            bad("wrong-first-task", run_, "head", "the first unfinished task is not recognised as such after another one finished")
    # --- the choice of the next task: an unfinished one, while there is one
    pick = mgr.lookup("_next_task")
    picks = 0
    for pat in [p for k in range(1, width + 1) for p in itertools.product((True, False), repeat=k)]:
        live = [i for i, p in enumerate(pat) if p]
        for ready in [None, *live]:
            for idx in range(len(pat)):
                if pick is None:
                    continue
                scen += 1
                picks += 1
                c = Pick(repo, mgr)
                ts = [mk("obj", "task", i) if p else NONE for i, p in enumerate(pat)]
                k, heap = cell("tasks", *ts)
                heap[(c.me, "tasks")] = k
                heap[(c.me, "_task_idx")] = const(idx)
                heap[(c.me, "_task_head")] = const(live[0] if live else 0)
                for i, t in enumerate(ts):
                    if t is not NONE:
                        heap[(t, "_pipeline_is_available")] = const(i == ready)
                o = SmallEngine(repo, c).run(pick, self_cls=mgr, heap=heap)
                paths += len(o.ret) + len(o.exc)
                for s, v in o.ret:
                    at = s.heap.get((c.me, "_task_idx"))
                    if not live:
                        bad("run-goes-on", pick, "end", "a task is scheduled although all have finished")
                    elif v is NONE:
                        bad("finished-task-kept", pick, "none", "a finished task is scheduled again")
                    elif v.k == "obj" and ready is not None and v.a[1] != ready:
                        bad("ready-task-ignored", pick, "ready", "the only task that can run is not the one scheduled")
                    elif v.k == "obj" and at is not None and is_const(at) and at.a[1] != v.a[1]:
                        bad("wrong-first-task", pick, "index", "the position recorded for the scheduled task is that of another one")
                for s, e in o.exc:
                    if live and e is mk("exc", "StopIteration"):
                        bad("run-ends-early", pick, "end", f"the run ends although tasks {live} of {len(pat)} have not finished")
                if not live and not any(e is mk("exc", "StopIteration") for _s, e in o.exc):
                    bad("run-goes-on", pick, "end", "the end of the run is not reported when all tasks have finished")
    res.stats = {"choices": picks, "scenarios": scen, "paths": paths, "state_writes": writers, "forced_advances": forced, "removals": removed}
    res.floors = {"paths": 10, "state_writes": 4}
    res.explanation = (
        "The transition relation of a task is computed from the source by running the step and advance routines abstractly from each of the states (unset, setup, next, finish, "
        "finished) and from every combination of present and missing inputs of up to three products: all paths, with every stage allowed to return, to raise an error and (the repeated stage) to report its end. It is compared with the documented automaton; "
        "writes of the state elsewhere and forced moves by the manager are located in the whole package."
    )
    res.assumptions = ["task code does not change its own stage", "logging does not raise"]
    return res


def _reached(repo, cls, roots):
    """Methods of the class reached from the roots without passing a user stage."""
    out, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in out:
            continue
        out.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                g = cls.lookup(n.func.attr)
                if g is not None and g.name not in USER and g.name != "validate":
                    todo.append(g)
            elif isinstance(n, ast.Call):
                g = repo.resolve_expr(n.func, f.module, f)
                if isinstance(g, FuncInfo) and g.module is f.module:
                    todo.append(g)
    return out
