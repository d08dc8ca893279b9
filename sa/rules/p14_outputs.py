"""P14: each output of a container task is labelled, checked, saved when asked and passed on, once and in order."""

import itertools

from ..core import AnalysisError, ClassInfo, FuncInfo, Repo
from ..flow import NONE, Client, alts, const, is_const, mk
from ..report import Result
from ..small import ITEMS, SmallEngine, cell, is_cell, is_dict

OTHER = mk("exc", "RuntimeError")
BASE = "caput.pipeline.tasklib.base.ContainerTask"
GROUPS = {"MemDiskGroup", "Container", "BasicCont"}


def group(n):
    return mk("obj", "group", n)


class Flow(Client):
    """Intercepts the named routines of the task and records what is done to outputs."""

    max_states = 600
    max_depth = 6
    keep_heap = True
    assume_total = True

    def __init__(self, repo, cls, stubs):
        self.repo, self.cls, self.stubs = repo, cls, stubs
        self.me = mk("self", cls)

    def initial(self, f):
        return ()

    @staticmethod
    def ev(st, e):
        return st.with_mon(st.mon + (e,))

    def on_unknown(self, eng, st, node, it=None):
        return st if ("imprecise",) in st.mon else self.ev(st, ("imprecise",))

    def inline(self, eng, callee, depth):
        return callee.module.name.startswith("caput.pipeline.tasklib.base")

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if fn.k == "g" and fn.a[0] == "isinstance" and len(args) == 2 and args[0].k == "obj" and args[0].a[0] in ("group", "checked", "processed"):
            cs = args[1].a[0] if args[1].k == "tuple" else (args[1],)
            names = [c.a[0].name if c.k == "g" and isinstance(c.a[0], ClassInfo) else str(c.a[0]) for c in cs]
            return [(st, const(any(n.split(".")[-1] in GROUPS for n in names)))]
        if fn.k == "g" and fn.a[0] == "hasattr" and len(args) == 2 and args[0].k == "self" and is_const(args[1]):
            n = args[1].a[1]
            if n in self.stubs:
                return [(st, const(self.stubs[n] is not None))]
        recv = fn.a[0] if fn.k in ("bound", "attr") else None
        name = fn.a[1].name if fn.k == "bound" else fn.a[1] if fn.k == "attr" else None
        if fn.k == "bound" and fn.a[1].is_static and recv is not None and recv.k != "self":
            recv = None
        if recv is not None and recv.k == "self" and name in self.stubs:
            vals = self.bound(fn, args, kws)
            st = self.ev(st, ("call", name, vals))
            r = self.stubs[name]
            v = r(vals) if callable(r) else r
            exc = [(self.ev(st, ("other",)), OTHER)]
            return [(st, v if v is not None else NONE)], exc
        if recv is not None and name == "add_history":
            return [(self.ev(st, ("history", recv, args[0] if args else None, args[1] if len(args) > 1 else None)), NONE)]
        if isinstance(callee, FuncInfo) and not self.inline(eng, callee, 0):
            return [(st, mk("call", id(node), mk("g", callee.qualname), tuple(args), tuple(kws)))]
        return None

    @staticmethod
    def bound(fn, args, kws):
        """Arguments by parameter name where the callee is known, else by position."""
        ps = fn.a[1].bound_params() if fn.k == "bound" else []
        out = {}
        for i, a in enumerate(args):
            out[ps[i] if i < len(ps) else i] = a
        out.update(dict(kws))
        return tuple(sorted(((str(k), v) for k, v in out.items()), key=lambda t: t[0]))

    def on_store_item(self, eng, st, base, idx, val, node):
        if base.k == "attr" and base.a[1] == "attrs" and base.a[0].k == "obj":
            return self.ev(st, ("label", base.a[0], idx, val))
        return st


def arg(vals, *names):
    d = dict(vals)
    for n in names:
        if n in d:
            return d[n]
    return None


def execute(repo, cls, f, stubs, heap, bind):
    c = Flow(repo, cls, stubs)
    h = {}
    for (b, k), v in heap.items():
        h[(c.me if b == "self" else b, k)] = v
    o = SmallEngine(repo, c).run(f, self_cls=cls, heap=h, bind=bind)
    ok = [(s, v) for s, v in o.ret if ("imprecise",) not in s.mon] + [(s, NONE) for s in o.fall if ("imprecise",) not in s.mon]
    lost = any(("imprecise",) in s.mon for s, _ in o.ret + o.exc)
    return c, ok, [(s, e) for s, e in o.exc if ("imprecise",) not in s.mon], lost


def calls(mon, name):
    return [e[2] for e in mon if e[0] == "call" and e[1] == name]


def run(repo: Repo, tier="quick"):
    res = Result()
    cls = repo.cls(BASE)
    fs = {n: cls.lookup(n) for n in ("next", "finish", "_process_output", "_save_output", "_nan_process_output")}
    for n, f in fs.items():
        if f is None:
            raise AnalysisError(f"ContainerTask.{n} is gone")
    st = {"scenarios": 0, "paths": 0, "undecided": 0}
    stop = repo.try_cls("caput.pipeline.exceptions.PipelineStopIteration")

    def bad(rule, f, detail, msg):
        res.add(rule, f.qualname, detail, f.loc(), msg)

    def swallowed(f, ok):
        for s, _v in ok:
            if ("other",) in s.mon:
                bad("error-swallowed", f, "error", "an error raised while processing an output does not reach the caller")

    # --- the repeated and the final stage
    wrap = lambda vals: mk("obj", "processed", arg(vals, "output", "0"))  # noqa: E731
    for which, f in (("process", fs["next"]), ("process_finish", fs["finish"])):
        nin = (0, 1, 2) if which == "process" else (0,)
        outs = [NONE, group(0), mk("tuple", (group(0),)), mk("tuple", (group(0), group(1)))]
        if tier == "thorough":
            outs.append(mk("tuple", (group(0), group(1), group(2))))
        for n, out in itertools.product(nin, outs):
            st["scenarios"] += 1
            stubs = {which: out, "_process_output": wrap}
            heap = {("self", "done"): const(False), ("self", "_no_input"): const(n == 0), ("self", "_count"): const(3)}
            va = f.node.args.vararg
            bind = {}
            if va is not None:
                bind[va.arg] = mk("tuple", tuple(group(f"in{i}") for i in range(n)))
            elif n:
                continue
            c, ok, exc, lost = execute(repo, cls, f, stubs, heap, bind)
            st["paths"] += len(ok) + len(exc)
            st["undecided"] += lost
            swallowed(f, ok)
            xs = [] if out is NONE else list(out.a[0]) if out.k == "tuple" else [out]
            if not ok and not lost:
                bad("output-lost", f, which, f"the stage fails for {len(xs)} outputs of '{which}'")
            for s, v in ok:
                if ("other",) in s.mon:
                    continue
                pc = calls(s.mon, which)
                if len(pc) != 1:
                    bad("wrong-call-count", f, which, f"'{which}' is run {len(pc)} times in one step")
                    continue
                if which == "process":
                    got = [x for _k, x in pc[0]]
                    want = [group(f"in{i}") for i in range(n)]
                    if got != want:
                        bad("inputs-not-passed", f, which, "'process' is not given the inputs of the step in order")
                po = [(arg(x, "output", "0"), arg(x, "ii", "1")) for x in calls(s.mon, "_process_output")]
                if [p[0] for p in po] != xs:
                    bad("output-lost" if len(po) < len(xs) else "output-repeated", f, "outputs", f"of {len(xs)} outputs of '{which}', {len(po)} are checked and saved{'' if len(po) != len(xs) else ' in another order'}")
                elif len(xs) > 1 and [p[1].a[1] if p[1] is not None and is_const(p[1]) else (0 if p[1] is None else None) for p in po] != list(range(len(xs))):
                    bad("wrong-position", f, "outputs", "an output is saved under the settings of another one")
                exp = [mk("obj", "processed", x) for x in xs]
                vals = alts(v)
                for y in vals:
                    ys = list(y.a[0]) if y.k == "tuple" else SmallEngine(repo, c).known(y, s) if is_cell(y) else [y]
                    if (not xs and y is not NONE) or (xs and ys != exp):
                        bad("output-lost", f, "return", "what the stage hands on is not the checked form of its outputs, in order")
                    elif len(xs) == 1 and (y.k == "tuple" or is_cell(y)):
                        bad("output-wrapped", f, "return", "a single output is handed on wrapped in a sequence")
                if which == "process":
                    cnt = s.heap.get((c.me, "_count"))
                    if cnt is not None and is_const(cnt) and cnt.a[1] != 3 + bool(xs):
                        bad("wrong-count", f, "count", f"a step with {len(xs)} outputs changes the counter from 3 to {cnt.a[1]}")
                    for x in xs:
                        lab = [e for e in s.mon if e[0] == "label" and e[1] is x and is_const(e[2]) and e[2].a[1] == "input_tags"]
                        if len(lab) != 1:
                            bad("label-missing", f, "input_tags", "an output does not record the tags of the inputs it was made from")
                        else:
                            k = SmallEngine(repo, c).known(lab[0][3], s)
                            if k is not None and (len(k) != n or any(not t.contains(group(f"in{i}")) for i, t in enumerate(k) if t.k != "const")):
                                bad("label-missing", f, "input_tags", "the recorded input tags are not those of the inputs in order")
        if which == "process":
            st["scenarios"] += 1
            for n in (0, 1):
                c, ok, exc, lost = execute(repo, cls, f, {which: NONE, "_process_output": wrap}, {("self", "done"): const(True), ("self", "_no_input"): const(not n)}, {f.node.args.vararg.arg: mk("tuple", tuple(group(f"in{i}") for i in range(n)))} if f.node.args.vararg else {})
                if ok or any(calls(s.mon, which) for s, _ in ok + exc) or not any(e.a[0] is stop for _s, e in exc):
                    bad("runs-after-done", f, "done", "a task that declared itself done is processed again or does not report its end")
        else:
            c, ok, exc, lost = execute(repo, cls, f, {"process_finish": None, "_process_output": wrap}, {}, {})
            st["scenarios"] += 1
            if not ok or any(alts(v) != [NONE] and alts(v) != (NONE,) and list(alts(v)) != [NONE] for _s, v in ok):
                bad("output-lost", f, "no-finish", "a task without a final stage does not end quietly")

    # --- one output: labels, check, save
    f = fs["_process_output"]
    ps = f.bound_params()
    for attrs in (NONE, {}, {"x": const("v{count}")}, {"x": const(5), "tag": const("t")}):
        for keep in (True, False):
            st["scenarios"] += 1
            chk = mk("obj", "checked", 0) if keep else NONE
            heap = {("self", "tag"): const("{tag}")}
            if attrs is NONE:
                heap[("self", "attrs")] = NONE
            else:
                d = mk("obj", "dictcell", "attrs")
                heap[(d, ITEMS)] = mk("tuple", tuple(mk("tuple", (const(k), v)) for k, v in attrs.items()))
                heap[("self", "attrs")] = d
            stubs = {"_nan_process_output": chk, "_save_output": mk("unk", "path"), "_interpolation_dict": mk("unk", "idict")}
            c, ok, exc, lost = execute(repo, cls, f, stubs, heap, {ps[0]: group(0), **({ps[1]: const(1)} if len(ps) > 1 else {})})
            st["paths"] += len(ok) + len(exc)
            st["undecided"] += lost
            swallowed(f, ok)
            if not ok and not lost:
                bad("output-lost", f, "fails", "no output is ever passed on")
            want = {"tag"} | (set(attrs) if attrs is not NONE else set())
            for s, v in ok:
                if ("other",) in s.mon:
                    continue
                mon = s.mon
                labs = {e[2].a[1] for e in mon if e[0] == "label" and e[1] is group(0) and is_const(e[2])}
                if labs != want:
                    bad("label-missing", f, "attrs", f"configured labels {sorted(want)}: an output gets {sorted(map(str, labs))}")
                nc, sc = calls(mon, "_nan_process_output"), calls(mon, "_save_output")
                if [arg(x, "output", "0") for x in nc] != [group(0)]:
                    bad("not-checked", f, "nan", "an output is not checked for bad values exactly once")
                elif keep and ([arg(x, "output", "0") for x in sc] != [chk]):
                    bad("not-saved", f, "save", "the checked output is not handed to the writer exactly once")
                elif not keep and any(arg(x, "output", "0") is not NONE for x in sc):
                    bad("bad-output-saved", f, "save", "an output rejected by the check is written")
                if keep and len(ps) > 1 and sc and arg(sc[0], "ii", "1") is not const(1):
                    bad("wrong-position", f, "save", "an output is saved under the settings of another one")
                if any(x is not chk for x in alts(v)):
                    bad("bad-output-passed" if not keep else "output-lost", f, "return", "what is passed on is not the outcome of the check")
                order = [e[0] if e[0] == "label" else e[1] for e in mon if e[0] in ("label", "call")]
                last = max([i for i, x in enumerate(order) if x == "label"], default=-1)
                if "_save_output" in order and last > order.index("_save_output"):
                    bad("label-missing", f, "late", "an output is labelled only after it was written")
            if any(e.k == "exc" and e.a[0] == "RuntimeError" and ("other",) not in s.mon for s, e in exc):
                bad("output-lost", f, "rejects", "a valid output is rejected")
        # the configuration is not changed by use
            for s, _v in ok:
                if attrs is not NONE:
                    now = s.heap.get((mk("obj", "dictcell", "attrs"), ITEMS))
                    if now is not None and now is not heap[(mk("obj", "dictcell", "attrs"), ITEMS)]:
                        bad("label-leak", f, "attrs", "labelling one output changes the configured labels")

    # --- bad values
    f = fs["_nan_process_output"]
    ps = f.bound_params()
    for check, found, dump, skip in itertools.product((True, False), repeat=4):
        st["scenarios"] += 1
        heap = {("self", "nan_check"): const(check), ("self", "nan_dump"): const(dump), ("self", "nan_skip"): const(skip)}
        stubs = {"_nan_check_walk": const(found), "write_output": mk("unk", "w")}
        c, ok, exc, lost = execute(repo, cls, f, stubs, heap, {ps[0]: group(0)})
        st["paths"] += len(ok) + len(exc)
        swallowed(f, ok)
        if not ok and not lost:
            bad("output-lost", f, "fails", "no output is ever passed on")
        for s, v in ok:
            if ("other",) in s.mon:
                continue
            rej = check and found and skip
            if any(x is not (NONE if rej else group(0)) for x in alts(v)):
                bad("bad-output-passed" if rej else "output-lost", f, f"{check}{found}{dump}{skip}", f"checking {'on' if check else 'off'}, bad values {'present' if found else 'absent'}, skipping {'on' if skip else 'off'}: the output is {'passed on' if rej else 'dropped'}")
            w = calls(s.mon, "write_output")
            if len(w) != (check and found and dump):
                bad("wrong-dump", f, f"{check}{found}{dump}{skip}", f"checking {'on' if check else 'off'}, bad values {'present' if found else 'absent'}, dumping {'on' if dump else 'off'}: the output is dumped {len(w)} times")
            elif w and arg(w[0], "output", "1") is not group(0):
                bad("wrong-dump", f, "what", "something else than the bad output is dumped")
            if check and not calls(s.mon, "_nan_check_walk"):
                bad("not-checked", f, "walk", "the output is not examined although checking is on")

    # --- saving
    f = fs["_save_output"]
    ps = f.bound_params()
    def listcell(k, xs):
        return cell(k, *xs)
    for save, name_list, ii in itertools.product((True, False, [True, False], [False, True]), (False, True), (0, 1)):
        st["scenarios"] += 1
        heap = {("self", "compression"): const(True), ("self", "output_root"): const(""), ("self", "output_format"): mk("obj", "format"), ("self", "versions"): mk("obj", "versions"), ("self", "pipeline_config"): mk("obj", "config")}
        if isinstance(save, list):
            k, h = listcell("save", [const(x) for x in save])
            heap |= h
            heap[("self", "save")] = k
        else:
            heap[("self", "save")] = const(save)
        if name_list:
            k, h = listcell("names", [mk("obj", "name", i) for i in range(2)])
            heap |= h
            heap[("self", "output_name")] = k
        else:
            heap[("self", "output_name")] = mk("obj", "name", 0)
        stubs = {"write_output": mk("unk", "w"), "_interpolation_dict": mk("unk", "idict")}
        bind = {ps[0]: group(0), **({ps[1]: const(ii)} if len(ps) > 1 else {})}
        c, ok, exc, lost = execute(repo, cls, f, stubs, heap, bind)
        st["paths"] += len(ok) + len(exc)
        st["undecided"] += lost
        swallowed(f, ok)
        want = save[ii] if isinstance(save, list) else save
        if not ok and not lost:
            bad("not-saved", f, "fails", f"saving {'on' if want else 'off'}: the routine never ends normally")
        for s, v in ok:
            if ("other",) in s.mon:
                continue
            w = calls(s.mon, "write_output")
            if len(w) != int(want):
                bad("not-saved" if want else "saved-unasked", f, "save", f"an output whose saving is {'on' if want else 'off'} is written {len(w)} times")
                continue
            if not want:
                continue
            if arg(w[0], "output", "1") is not group(0):
                bad("not-saved", f, "what", "something else than the output is written")
            fn = arg(w[0], "filename", "0")
            nm = mk("obj", "name", ii if name_list else 0)
            if fn is None or not fn.contains(nm) and fn is not nm:
                bad("wrong-name", f, "name", "the file name is not made from the name configured for this output")
            elif name_list and fn.contains(mk("obj", "name", 1 - ii)):
                bad("wrong-name", f, "name", "the file name is not made from the name configured for this output")
            if arg(w[0], "file_format", "2") is not mk("obj", "format"):
                bad("wrong-format", f, "format", "the configured file format is not the one used")
            hist = [(e[2].a[1] if e[2] is not None and is_const(e[2]) else None, e[3]) for e in s.mon if e[0] == "history" and e[1] is group(0)]
            idx = [i for i, e in enumerate(s.mon) if e[0] == "call" and e[1] == "write_output"][0]
            hidx = [i for i, e in enumerate(s.mon) if e[0] == "history"]
            got = {k: v for k, v in hist}
            if got.get("versions") is not mk("obj", "versions") or got.get("config") is not mk("obj", "config") or any(i > idx for i in hidx):
                bad("history-missing", f, "history", "the versions and configuration are not recorded in the output before it is written")
    c, ok, exc, lost = execute(repo, cls, f, {"write_output": mk("unk", "w"), "_interpolation_dict": mk("unk", "i")}, {("self", "save"): const(True)}, {ps[0]: NONE, **({ps[1]: const(0)} if len(ps) > 1 else {})})
    st["scenarios"] += 1
    for s, _v in ok:
        if calls(s.mon, "write_output"):
            bad("bad-output-saved", f, "none", "an output rejected by the check is written")
    walk(repo, res, cls, st, tier)
    naming(repo, res, cls, st)
    # --- the stages of the base class are not bypassed
    for sub in cls.all_subclasses():
        for n in ("_process_output", "_save_output", "_nan_process_output", "next", "finish"):
            if n in sub.methods and sub.module.name.startswith("caput."):
                st["overrides"] = st.get("overrides", 0) + 1
    res.stats = st
    res.floors = {"scenarios": 40, "paths": 60}
    res.explanation = (
        "The two stages of a container task and the routines for one output are interpreted abstractly for every number of inputs (0-2) and outputs (0-2, 3 in the thorough tier), every setting of the save, "
        "naming, checking, dumping and skipping options and every outcome of the check; the recorded labels, checks, writes and results are compared with the documented handling."
    )
    res.assumptions = ["task code does not call the output routines itself", "logging and barriers do not raise"]
    return res


# -- the search for bad values ---------------------------------------------------------------------


class Walk(Flow):
    """A tree of groups and datasets; each dataset is fine, has NaNs, has infinities or holds records."""

    def __init__(self, repo, cls, tree, kinds):
        super().__init__(repo, cls, {})
        self.tree, self.kinds = tree, kinds

    def inline(self, eng, callee, depth):
        return super().inline(eng, callee, depth)

    def ds(self, t):
        for x in t.walk():
            if x.k == "obj" and x.a[0] == "ds":
                return x.a[1]
        return None

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if fn.k == "g" and fn.a[0] == "isinstance" and len(args) == 2 and args[0].k == "obj" and args[0].a[0] in ("ds", "grp"):
            def flat(c):
                if c.k == "tuple":
                    return [y for x in c.a[0] for y in flat(x)]
                if c.k == "bin":
                    return flat(c.a[1]) + flat(c.a[2])
                return [c]
            names = {(c.a[0].name if isinstance(c.a[0], ClassInfo) else str(c.a[0])).split(".")[-1] for c in flat(args[1]) if c.k == "g"}
            mine = {"MemDataset", "_BaseDataset"} if args[0].a[0] == "ds" else ({"MemDiskGroup"} if args[0].a[1] == "root" else {"MemGroup", "_BaseGroup"})
            return [(st, const(bool(names & mine)))]
        if fn.k == "attr" and fn.a[0].k == "obj" and fn.a[0].a[0] == "grp":
            kids = self.tree.get(fn.a[0].a[1], ())
            if fn.a[1] == "values":
                return [(st, mk("tuple", tuple(kids)))]
            if fn.a[1] == "items":
                return [(st, mk("tuple", tuple(mk("tuple", (const(f"n{i}"), k)) for i, k in enumerate(kids))))]
        if fn.k == "attr" and fn.a[1] == "allreduce" and args:
            return [(self.ev(st, ("reduced",)), args[0])]
        if fn.k == "g" and fn.a[0] in ("numpy.isfinite", "numpy.isnan", "numpy.isinf") and args and self.ds(args[0]) is not None and self.kinds[self.ds(args[0])] == "records":
            return [], [(st, mk("exc", "TypeError"))]
        # reductions of tests on one dataset
        red = test = None
        if fn.k == "attr" and fn.a[1] in ("all", "any", "sum") and fn.a[0].k in ("call", "un"):
            red, test = fn.a[1], fn.a[0]
        elif fn.k == "g" and fn.a[0] in ("numpy.all", "numpy.any", "numpy.sum", "numpy.count_nonzero") and args:
            red, test = fn.a[0].split(".")[1], args[0]
        if red:
            neg = False
            while test.k == "un":
                neg, test = not neg, test.a[-1]
            if test.k == "call" and test.a[1].k == "g" and str(test.a[1].a[0]) in ("numpy.isfinite", "numpy.isnan", "numpy.isinf") and self.ds(test) is not None:
                k = self.kinds[self.ds(test)]
                which = str(test.a[1].a[0]).split(".")[1]
                some_true = {"isfinite": True, "isnan": k == "nan", "isinf": k == "inf"}[which]
                all_true = {"isfinite": k == "fine", "isnan": False, "isinf": False}[which]
                if neg:
                    some_true, all_true = not all_true, not some_true
                v = all_true if red == "all" else some_true
                return [(st, const(v) if red in ("all", "any") else const(int(v)))]
        return None


def walk(repo, res, cls, st, tier):
    f = cls.lookup("_nan_check_walk")
    if f is None:
        return
    ps = f.bound_params()
    root, sub = mk("obj", "grp", "root"), mk("obj", "grp", "sub")
    data = mk("obj", "grp", "data")
    d = [mk("obj", "ds", i) for i in range(3)]
    tree = {"root": (d[0], sub, d[1]), "data": (d[0], sub, d[1]), "sub": (d[2],)}
    for kinds in itertools.product(("fine", "nan", "inf", "records"), repeat=3):
        st["scenarios"] += 1
        c = Walk(repo, cls, tree, kinds)
        o = SmallEngine(repo, c).run(f, self_cls=cls, heap={(root, "_data"): data}, bind={ps[0]: root})
        st["paths"] += len(o.ret) + len(o.exc)
        want = any(k in ("nan", "inf") for k in kinds)
        for s, v in o.ret:
            if ("imprecise",) in s.mon:
                st["undecided"] += 1
                continue
            tv = {SmallEngine(repo, c).truth(s, x) for x in alts(v)}
            if None in tv:
                st["undecided"] += 1
            elif tv != {want}:
                res.add("bad-values-missed" if want else "bad-values-invented", f.qualname, "walk", f.loc(), f"datasets holding {list(kinds)} (the last one in a sub-group) are reported as {'clean' if want else 'bad'}")
            elif ("reduced",) not in s.mon:
                res.add("bad-values-missed", f.qualname, "reduce", f.loc(), "the other processes are not told about bad values")
        if not o.ret and any(e is mk("exc", "TypeError") for _s, e in o.exc):
            res.add("output-lost", f.qualname, "records", f.loc(), "an output with a dataset of records fails the check")


class Names(Flow):
    def on_call(self, eng, st, node, fn, args, kws, callee):
        if fn.k == "attr" and fn.a[1] == "update":
            return [(self.ev(st, ("update", tuple(kws), tuple(args))), NONE)]
        return super().on_call(eng, st, node, fn, args, kws, callee)


def naming(repo, res, cls, st):
    """The values offered to output names are those of this output."""
    f = cls.lookup("_interpolation_dict")
    if f is None:
        return
    ps = f.bound_params()
    for ii in (0, 1):
        st["scenarios"] += 1
        c = Names(repo, cls, {})
        k, heap = cell("keys", const("k0"), const("k1"))
        heap[(c.me, "_out_keys")] = k
        heap[(c.me, "_count")] = const(7)
        bind = {ps[0]: group(0), **({ps[1]: const(ii)} if len(ps) > 1 else {})}
        o = SmallEngine(repo, c).run(f, self_cls=cls, heap=heap, bind=bind)
        for s, v in o.ret:
            vals = {}
            for e in s.mon:
                if e[0] == "update":
                    vals.update(dict(e[1]))
                    for a in e[2]:
                        dd = SmallEngine(repo, c).dict_of(a, s) if is_dict(a) else None
                        vals.update({k.a[1]: x for k, x in (dd or {}).items()})
            for x in alts(v):
                if x.k == "dict":
                    vals.update({k.a[1]: y for k, y in x.a[1] if is_const(k)})
                dd = SmallEngine(repo, c).dict_of(x, s) if is_dict(x) else None
                vals.update({k.a[1]: y for k, y in (dd or {}).items()})
            for b, k in [kk for kk in s.heap if isinstance(kk[1], type(NONE)) and is_const(kk[1])]:
                vals.setdefault(k.a[1], s.heap[(b, k)])
            for nm, want in (("key", f"k{ii}"), ("count", 7)):
                got = vals.get(nm)
                if got is not None and is_const(got) and got.a[1] not in (want, ""):
                    res.add("wrong-position" if nm == "key" else "wrong-count", f.qualname, nm, f.loc(), f"the '{nm}' used in names and labels of output {ii} is {got.a[1]!r} instead of {want!r}")


__all__ = ["run", "is_dict"]
