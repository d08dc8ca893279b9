"""Rank-divergence analysis: which branches depend on the executing process, and
do both sides of such a branch run the same sequence of collective operations?

Two stages over every function, context-sensitive in which parameters are rank
dependent:

1. a forward information-flow pass (explicit and implicit flows, joins, loops to a
   fixpoint) computes for every test / loop iterable whether its value can differ
   between processes;
2. a continuation-passing pass computes the collective trace of each arm *including
   everything that follows it*, with repo-internal callees spliced in, and compares
   the arms of rank-dependent branches.
"""

from __future__ import annotations

import ast

from .core import ClassInfo, FuncInfo, Module, Repo, dotted, enclosing_class, walk_scope

# Operations every member of the communicator must take part in.
COLLECTIVE = {
    "Barrier", "barrier", "Ibarrier",
    "bcast", "Bcast", "Ibcast",
    "allreduce", "Allreduce", "Iallreduce",
    "allgather", "Allgather", "Allgatherv", "Iallgather",
    "gather", "Gather", "Gatherv",
    "scatter", "Scatter", "Scatterv",
    "alltoall", "Alltoall", "Alltoallv", "Alltoallw",
    "Reduce", "Reduce_scatter", "Reduce_scatter_block",
    "Sendrecv", "sendrecv",
}
# Names that are collective only when invoked on a communicator.
COLLECTIVE_ON_COMM = {"reduce", "Split", "Dup", "Create", "Create_group", "exscan", "scan", "Scan"}
# Collectives whose result is the same on every process.
UNIFORM_RESULT = {
    "bcast", "allreduce", "allgather", "Barrier", "barrier", "Allreduce", "Allgather", "Bcast",
}
# In-place uniform: the buffer argument (position) becomes uniform afterwards
INPLACE_UNIFORM = {"Bcast": [0], "Allreduce": [1], "Allgather": [1], "Allgatherv": [1]}

RANK_ATTRS = {"rank", "Get_rank", "local_offset", "local_shape", "local_bounds", "local_array",
              "local_data", "_local_shape", "_local_offset", "rank0"}
UNIFORM_ATTRS = {"comm", "_comm", "size", "global_shape", "axis", "dtype", "ndim", "_axis",
                 "_global_shape", "distributed_axis", "chunks", "compression", "compression_opts",
                 "itemsize", "__class__", "__name__", "name", "attrs", "distributed", "file_format",
                 "Get_size", "Get_group"}
RANK_CALLS = {"split_local", "mpirange", "partition_list_mpi", "gethostname", "getpid", "node",
              "Get_rank", "_partition_sel_index", "urandom", "getrandbits"}
RANK_CALLS_DOTTED = {
    "time.time", "time.monotonic", "time.perf_counter", "socket.gethostname", "platform.node",
    "os.getpid", "os.urandom", "psutil.virtual_memory", "random.random", "numpy.random.random",
    "numpy.random.rand", "numpy.random.randint", "numpy.random.default_rng",
}
# Reductions of array content: every process only sees its own part of the data.
CONTENT_NP = {"any", "all", "isnan", "isfinite", "isinf", "sum", "max", "min", "count_nonzero",
              "amax", "amin", "nanmax", "nanmin", "mean", "allclose", "array_equal"}
CONTENT_METHODS = {"any", "all"}
GLOBAL_RANK = {"caput.util.mpitools.rank", "caput.util.mpitools.rank0"}
# Arguments that are, by what the routine is for, each process's own part.
LOCAL_PARAMS = {
    ("caput.mpiarray.MPIArray.wrap", "array"),
    ("caput.util.mpitools.transpose_blocks", "row_array"),
    ("caput.util.mpitools.can_allocate", "nbytes"),
    ("caput.util.mpitools.allreduce", "sendobj"),
}
LOCAL_ON_MPIARRAY = {"shape", "size", "nbytes", "flat", "data"}


class Ctx:
    """Result of analysing one function in one parameter-taint context."""

    __slots__ = ("tests", "ret", "trace", "in_progress", "tainted_nodes")

    def __init__(self):
        self.tests = {}
        self.ret = False
        self.trace = None
        self.in_progress = False


class Collectives:
    def __init__(self, repo: Repo, allow=()):
        self.repo = repo
        self.allow = set(allow)
        self.ctxs = {}
        self.violations = {}
        self.quiet = False
        self.stats = {"functions": 0, "contexts": 0, "rank_branches": 0,
                      "branches_with_collectives": 0, "collective_sites": set(),
                      "rank_loops": 0}
        self.nodes = {}
        self.rev = []
        self.END = self._mk(("end",))
        self.LOOP = self._mk(("loopback",))
        self.RAISE = self._mk(("raise",))
        self.attr_taint = set()  # (class qualname, attr)
        self.attr_pc = set()  # ... where which process it is decides what is assigned
        self.owners = {}
        for c in repo.all_classes() if hasattr(repo, "all_classes") else [c for m in repo.modules.values() for c in m.classes.values()]:
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        self.owners.setdefault(n.attr, set()).add(c.qualname)
        self._may = self._may_collective()
        self._splice_memo = {}

    # -- interned traces -----------------------------------------------------
    def _mk(self, t):
        if t not in self.nodes:
            self.nodes[t] = len(self.rev)
            self.rev.append(t)
        return self.nodes[t]

    def ev(self, name, tail):
        return self._mk(("ev", name, tail))

    def alt(self, a, b):
        if a == b:
            return a
        if a == self.RAISE:
            return b
        if b == self.RAISE:
            return a
        return self._mk(("alt", a, b))

    def has_events(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)
        n = self.rev[t]
        if n[0] in ("ev", "loop"):
            return True
        if n[0] == "alt":
            return self.has_events(n[1], seen) or self.has_events(n[2], seen)
        return False

    def splice(self, t, tail):
        key = (t, tail)
        if key in self._splice_memo:
            return self._splice_memo[key]
        n = self.rev[t]
        if n[0] == "end":
            r = tail
        elif n[0] in ("raise", "loopback"):
            r = t
        elif n[0] == "ev":
            r = self.ev(n[1], self.splice(n[2], tail))
        elif n[0] == "loop":
            r = self._mk(("loop", n[1], self.splice(n[2], tail)))
        else:
            r = self.alt(self.splice(n[1], tail), self.splice(n[2], tail))
        self._splice_memo[key] = r
        return r

    def show(self, t, depth=6):
        n = self.rev[t]
        if depth == 0:
            return "..."
        if n[0] == "ev":
            return f"{n[1]}; {self.show(n[2], depth - 1)}"
        if n[0] == "alt":
            return f"({self.show(n[1], depth-2) if depth>2 else '..'} | {self.show(n[2], depth-2) if depth>2 else '..'})"
        if n[0] == "loop":
            return f"loop[{self.show(n[1], depth-1)}]; {self.show(n[2], depth-1)}"
        return {"end": "(end)", "raise": "raise", "loopback": "(next)"}[n[0]]

    # -- may-collective summary (name based, for unknown receivers) ------------
    def _may_collective(self):
        direct, calls = {}, {}
        for f in self.repo.all_functions():
            ds, cs = False, set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = self.collective_name(n)
                    if nm:
                        ds = True
                    r = self.resolve_static(n, f)
                    for x in r:
                        cs.add(x)
            direct[f], calls[f] = ds, cs
        may = {f for f, d in direct.items() if d}
        ch = True
        while ch:
            ch = False
            for f, cs in calls.items():
                if f not in may and cs & may:
                    may.add(f)
                    ch = True
        return may

    def collective_name(self, call):
        fn = call.func
        if isinstance(fn, ast.Attribute):
            base = dotted(fn.value) or ""
            last = base.split(".")[-1].lower()
            if fn.attr in COLLECTIVE:
                # mpitools.barrier(...) style wrappers are repo functions: resolved separately
                return fn.attr
            if fn.attr in COLLECTIVE_ON_COMM and last.endswith("comm"):
                return fn.attr
        return None

    def resolve_static(self, call, f: FuncInfo):
        """Callees inside the repository that this call may reach (precise receivers only)."""
        fn = call.func
        if isinstance(fn, ast.Name) or (isinstance(fn, ast.Attribute) and dotted(fn)):
            d = dotted(fn)
            head = d.split(".")[0]
            if head in ("self", "cls") and enclosing_class(f) is not None:
                parts = d.split(".")
                if len(parts) == 2:
                    c = enclosing_class(f)
                    out = []
                    m = c.lookup(parts[1])
                    if m is not None:
                        out.append(m)
                    for s in c.all_subclasses():
                        if parts[1] in s.methods:
                            out.append(s.methods[parts[1]])
                    return out
                return []
            r = self.repo.resolve_expr(fn, f.module, f)
            if isinstance(r, FuncInfo):
                return [r]
            if isinstance(r, ClassInfo):
                i = r.lookup("__init__")
                return [i] if i else []
            return []
        if (
            isinstance(fn, ast.Attribute)
            and isinstance(fn.value, ast.Call)
            and isinstance(fn.value.func, ast.Name)
            and fn.value.func.id == "super"
        ):
            c = enclosing_class(f)
            if c is not None:
                m = c.lookup_after(c, fn.attr)
                return [m] if m else []
        return []

    # -- stage 1: information flow --------------------------------------------
    def analyse(self, f: FuncInfo, tainted=frozenset(), closure=None):
        key = (f, tainted, frozenset(k for k, v in (closure or {}).items() if v))
        if key in self.ctxs:
            return self.ctxs[key]
        c = Ctx()
        c.in_progress = True
        self.ctxs[key] = c
        self.stats["contexts"] += 1
        env = dict(closure or {})
        for p in f.all_params():
            env[p] = p in tainted or p.startswith("local_") or (f.qualname, p) in LOCAL_PARAMS
        body = f.node.body if not isinstance(f.node, ast.Lambda) else [ast.Return(value=f.node.body)]
        w = _Flow(self, f, c)
        w.block(body, env, False)
        # stage 2
        tr = _Trace(self, f, c)
        c.trace = tr.block(body, self.END, self.END, self.RAISE, self.RAISE)
        c.in_progress = False
        return c

    def is_collective_wrapper(self, f: FuncInfo):
        return f.qualname in (
            "caput.util.mpitools.barrier",
            "caput.util.mpitools.bcast",
            "caput.util.mpitools.allreduce",
        )

    def report(self, f, node, rule, msg):
        if self.quiet:
            return
        key = f"{rule}|{f.qualname}|{msg.split(' :: ')[0]}"
        self.violations.setdefault(key, (f, node, rule, msg))

    def run(self):
        # fixpoint on tainted instance attributes
        for _ in range(4):
            before = (set(self.attr_taint), set(self.attr_pc))
            self.ctxs.clear()
            self.violations.clear()
            for k in self.stats:
                self.stats[k] = set() if isinstance(self.stats[k], set) else 0
            for f in self.repo.all_functions():
                if f.parent is None:
                    self.analyse(f)
                    self.stats["functions"] += 1
            if (self.attr_taint, self.attr_pc) == before:
                break
        return self.violations


class _Flow:
    def __init__(self, an: Collectives, f: FuncInfo, ctx: Ctx):
        self.an, self.f, self.ctx = an, f, ctx
        self.left = []
        self.cls = enclosing_class(f)
        self.mpiarray = self.cls is not None and self.cls.is_subclass_of("caput.mpiarray.MPIArray")

    # statements; env is mutated; returns None.  `pc` = control taint
    def block(self, body, env, pc):
        for st in body:
            self.stmt(st, env, pc)

    def assign(self, tgt, val, env, pc=False):
        if isinstance(tgt, ast.Name):
            env[tgt.id] = val
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            for e in tgt.elts:
                self.assign(e, val, env, pc)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, val, env, pc)
        elif isinstance(tgt, ast.Attribute):
            d = dotted(tgt)
            if d and d.startswith("self.") and d.count(".") == 1 and self.cls is not None:
                if val and tgt.attr not in UNIFORM_ATTRS:
                    self.an.attr_taint.add((self.cls.qualname, tgt.attr))
                    if pc:
                        self.an.attr_pc.add((self.cls.qualname, tgt.attr))
            elif val and isinstance(tgt.value, ast.Name):
                pass
        elif isinstance(tgt, ast.Subscript):
            b = tgt.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and val and isinstance(tgt.value, ast.Name):
                # storing a rank-dependent value makes the container's content rank dependent
                env[b.id] = env.get(b.id, False) or val

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, False) or v
        return out

    def stmt(self, st, env, pc):
        E = self.expr
        if isinstance(st, ast.Assign):
            if (
                len(st.targets) == 1
                and isinstance(st.targets[0], ast.Tuple)
                and isinstance(st.value, ast.Tuple)
                and len(st.targets[0].elts) == len(st.value.elts)
            ):
                vs = [E(x, env) or pc for x in st.value.elts]
                for t, v in zip(st.targets[0].elts, vs):
                    self.assign(t, v, env, pc)
            else:
                v = E(st.value, env) or pc
                if isinstance(st.value, ast.IfExp) and E(st.value.test, env):
                    pc = True
                for t in st.targets:
                    self.assign(t, v, env, pc)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, E(st.value, env) or pc, env)
        elif isinstance(st, ast.AugAssign):
            v = E(st.value, env) or pc or E(_load(st.target), env)
            self.assign(st.target, v, env)
        elif isinstance(st, ast.Expr):
            E(st.value, env)
        elif isinstance(st, ast.Return):
            if st.value is not None and (E(st.value, env) or pc):
                self.ctx.ret = True
        elif isinstance(st, (ast.If,)):
            t = E(st.test, env)
            self.ctx.tests[st] = self.ctx.tests.get(st, False) or t
            a, b = dict(env), dict(env)
            self.block(st.body, a, pc or t)
            self.block(st.orelse, b, pc or t)
            ea, eb = _exits(st.body), _exits(st.orelse)
            if ea and not eb:
                j = b
            elif eb and not ea:
                j = a
            else:
                j = self.join(a, b)
            env.clear()
            env.update(j)
        elif isinstance(st, (ast.Break, ast.Continue)):
            if self.left:
                self.left[-1].append(dict(env))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            t = E(st.iter, env)
            cnt = t and not _uniform_count(st.iter)
            self.ctx.tests[st] = self.ctx.tests.get(st, False) or cnt
            for _ in range(3):
                b = dict(env)
                self.assign(st.target, t, b)
                self._for_target(st, b, env)
                self.left.append([])
                self.block(st.body, b, pc or cnt)
                j = self.join(env, b)
                for x in self.left.pop():
                    j = self.join(j, x)
                if j == env:
                    break
                env.clear()
                env.update(j)
            self.block(st.orelse, env, pc)
        elif isinstance(st, ast.While):
            for _ in range(3):
                t = E(st.test, env)
                self.ctx.tests[st] = self.ctx.tests.get(st, False) or t
                b = dict(env)
                self.left.append([])
                self.block(st.body, b, pc or t)
                j = self.join(env, b)
                for x in self.left.pop():
                    j = self.join(j, x)
                if j == env:
                    break
                env.clear()
                env.update(j)
            self.block(st.orelse, env, pc)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = E(it.context_expr, env) or pc
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            self.block(st.body, env, pc)
        elif isinstance(st, ast.Try):
            pre = dict(env)
            self.block(st.body, env, pc)
            outs = []
            if not _exits(st.body):
                self.block(st.orelse, env, pc)
                outs.append(dict(env))
            for h in st.handlers:
                b = self.join(pre, env)
                if h.name:
                    b[h.name] = False
                self.block(h.body, b, pc)
                if not _exits(h.body):
                    outs.append(b)
            j = outs[0] if outs else env
            for o in outs[1:]:
                j = self.join(j, o)
            j = dict(j)
            env.clear()
            env.update(j)
            self.block(st.finalbody, env, pc)
        elif isinstance(st, ast.Assert):
            E(st.test, env)
        elif isinstance(st, ast.Delete):
            pass
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                E(st.exc, env)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[st.name] = False
        elif isinstance(st, ast.Match):
            t = E(st.subject, env)
            self.ctx.tests[st] = self.ctx.tests.get(st, False) or t
            outs = [dict(env)]
            for c in st.cases:
                b = dict(env)
                self.block(c.body, b, pc or t)
                outs.append(b)
            j = outs[0]
            for o in outs[1:]:
                j = self.join(j, o)
            env.clear()
            env.update(j)

    def _for_target(self, st, b, env):
        """Tuple targets over enumerate / zip keep element-wise precision."""
        it = st.iter
        if isinstance(it, ast.Call) and isinstance(st.target, ast.Tuple):
            nm = dotted(it.func)
            if nm == "enumerate" and len(st.target.elts) == 2 and it.args:
                self.assign(st.target.elts[0], False, b)
                self.assign(st.target.elts[1], self.expr(it.args[0], env), b)
            elif nm == "zip" and len(st.target.elts) == len(it.args):
                for t, a in zip(st.target.elts, it.args):
                    self.assign(t, self.expr(a, env), b)

    def decided(self, e):
        """An attribute that is set or left out depending on the process."""
        d = dotted(e)
        if d and d.startswith("self.") and d.count(".") == 1 and self.cls is not None:
            return any(isinstance(c, ClassInfo) and (c.qualname, e.attr) in self.an.attr_pc for c in self.cls.mro())
        own = self.an.owners.get(e.attr)
        return bool(own) and all((c, e.attr) in self.an.attr_pc for c in own)

    # expressions -> bool
    def expr(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.an.repo.resolve_expr(e, self.f.module, self.f)
            if isinstance(r, str) and r in GLOBAL_RANK:
                return True
            return False
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                head = d.split(".")[0]
                if head not in env:
                    r = self.an.repo.resolve_expr(e, self.f.module, self.f)
                    if isinstance(r, str) and r in GLOBAL_RANK:
                        return True
            if e.attr in RANK_ATTRS:
                return True
            if e.attr in UNIFORM_ATTRS and not (
                self.mpiarray and e.attr in LOCAL_ON_MPIARRAY and d == f"self.{e.attr}"
            ):
                if e.attr == "size" and not (dotted(e.value) or "comm").lower().endswith(("comm", "world", "mpitools")):
                    return self.expr(e.value, env)
                return False
            if d and d.startswith("self.") and d.count(".") == 1 and self.cls is not None:
                for c in self.cls.mro():
                    if isinstance(c, ClassInfo) and (c.qualname, e.attr) in self.an.attr_taint:
                        return True
                if self.mpiarray and e.attr in LOCAL_ON_MPIARRAY:
                    return True
                m = self.cls.lookup(e.attr)
                if m is not None and m.is_property and m is not self.f:
                    return self.an.analyse(m).ret
                return False
            if self.decided(e):
                return True
            return self.expr(e.value, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            t = False
            for g in e.generators:
                it = self.expr(g.iter, inner)
                cnt = it and not _uniform_count(g.iter)
                self.ctx.tests[g] = self.ctx.tests.get(g, False) or cnt
                self.assign(g.target, it, inner)
                t = t or cnt
                for i in g.ifs:
                    ti = self.expr(i, inner)
                    self.ctx.tests[i] = self.ctx.tests.get(i, False) or ti
                    t = t or ti
            if isinstance(e, ast.DictComp):
                return self.expr(e.key, inner) or self.expr(e.value, inner) or t
            return self.expr(e.elt, inner) or t
        if isinstance(e, ast.Lambda):
            return False
        if isinstance(e, ast.IfExp):
            t = self.expr(e.test, env)
            self.ctx.tests[e] = self.ctx.tests.get(e, False) or t
            a, b = self.expr(e.body, env), self.expr(e.orelse, env)
            return t or a or b
        if isinstance(e, ast.BoolOp):
            vals = [self.expr(v, env) for v in e.values]
            for i, v in enumerate(e.values[1:], 1):
                self.ctx.tests[(e, i)] = self.ctx.tests.get((e, i), False) or any(vals[:i])
            return any(vals)
        if isinstance(e, ast.Compare):
            # identity / None checks of an object are uniform: the object exists everywhere or nowhere
            if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and not isinstance(e.left, ast.Call):
                vals = [e.left, *e.comparators]
                if any(isinstance(x, ast.Constant) and x.value is None for x in vals):
                    return any(self.expr(x, env) for x in vals if isinstance(x, ast.Name)) or any(self.decided(x) for x in vals if isinstance(x, ast.Attribute))
            return self.expr(e.left, env) or any(self.expr(c, env) for c in e.comparators)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            self.assign(e.target, v, env)
            return v
        out = False
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, (ast.expr, ast.keyword, ast.FormattedValue, ast.comprehension, ast.Slice)):
                if isinstance(ch, ast.keyword):
                    ch = ch.value
                out = self.expr(ch, env) or out
        return out

    def call(self, e, env):
        an = self.an
        argt = [self.expr(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kwt = {k.arg: self.expr(k.value, env) for k in e.keywords}
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else (fn.id if isinstance(fn, ast.Name) else "")
        base_t = False
        if isinstance(fn, ast.Attribute):
            base_t = self.expr(fn.value, env)
        cn = an.collective_name(e)
        callees = an.resolve_static(e, self.f)
        res = None
        for callee in callees:
            if callee.name == "__init__" and not nm == "__init__":
                for p in _bind(callee, e, argt, kwt):
                    # kept on the object as it is
                    for n in walk_scope(callee.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in UNIFORM_ATTRS:
                                    own = (callee.cls.qualname, t.attr)
                                    an.attr_taint.add(own)
                                    arg = _arg_for(callee, e, p)
                                    if isinstance(arg, ast.Name) and env.get(arg.id):
                                        an.attr_pc.add(own)
                continue
            tp = _bind(callee, e, argt, kwt)
            c = an.analyse(callee, frozenset(tp), self._closure(callee, env))
            res = (res or False) or c.ret
        if cn:
            for i in INPLACE_UNIFORM.get(nm, []):
                if i < len(e.args) and isinstance(e.args[i], ast.Name):
                    env[e.args[i].id] = False
            if nm in UNIFORM_RESULT and not callees:
                return False
            if nm in UNIFORM_RESULT:
                return False
            if nm in ("gather", "Gather", "scatter", "Scatter", "Sendrecv"):
                return True
            return any(argt) or any(kwt.values())
        if res is not None:
            if any(an.is_collective_wrapper(c) for c in callees) and nm in UNIFORM_RESULT:
                return False
            if nm in RANK_CALLS:
                return True
            return res or (base_t and isinstance(fn, ast.Attribute) and not dotted(fn))
        if nm in RANK_CALLS:
            return True
        r = an.repo.resolve_expr(fn, self.f.module, self.f) if dotted(fn) else None
        if isinstance(r, str):
            if r in RANK_CALLS_DOTTED:
                return True
            if r.startswith("numpy.") and r.split(".")[-1] in CONTENT_NP and e.args and not _static_arg(e.args[0]):
                return True
        if isinstance(fn, ast.Attribute) and nm in CONTENT_METHODS and not e.args:
            return True
        if isinstance(fn, ast.Attribute) and nm in ("append", "extend", "add", "update", "insert", "setdefault"):
            if any(argt) and isinstance(fn.value, ast.Name):
                env[fn.value.id] = True
        if nm in ("isinstance", "hasattr", "issubclass", "type", "callable", "id"):
            return False
        if isinstance(fn, ast.Name) and fn.id in env and env[fn.id]:
            return True
        return base_t or any(argt) or any(kwt.values())

    def _closure(self, callee, env):
        if callee.parent is not None and callee.parent is self.f:
            return {k: v for k, v in env.items()}
        return None


def _static_arg(a):
    """np.max([..consts/lens..]) over sizes etc. is not array content."""
    return isinstance(a, (ast.List, ast.Tuple, ast.Constant, ast.GeneratorExp, ast.ListComp))


def _uniform_count(it):
    """enumerate/zip over literals: number of iterations does not depend on content."""
    return isinstance(it, (ast.Tuple, ast.List))


def _load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    return n


def _exits(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def _arg_for(callee, call, p):
    for k in call.keywords:
        if k.arg == p:
            return k.value
    ps = callee.bound_params() if callee.is_method else callee.params()
    i = ps.index(p) if p in ps else len(call.args)
    return call.args[i] if i < len(call.args) else None


def _bind(callee: FuncInfo, call: ast.Call, argt, kwt):
    params = callee.bound_params() if callee.is_method else callee.params()
    a = callee.node.args
    out = set()
    npos = [p for p in params if p not in [k.arg for k in a.kwonlyargs]]
    star = False
    for i, (arg, t) in enumerate(zip(call.args, argt)):
        if isinstance(arg, ast.Starred):
            star = True
        if not t:
            continue
        if star:
            out.update(npos[i:])
            if a.vararg:
                out.add(a.vararg.arg)
        elif i < len(npos):
            out.add(npos[i])
        elif a.vararg:
            out.add(a.vararg.arg)
    for k, t in kwt.items():
        if not t:
            continue
        if k is None:
            continue
        if k in params:
            out.add(k)
        elif a.kwarg:
            out.add(a.kwarg.arg)
    return out


class _Trace:
    """CPS collective traces."""

    def __init__(self, an: Collectives, f: FuncInfo, ctx: Ctx):
        self.an, self.f, self.ctx = an, f, ctx

    def block(self, body, fall, ret, brk, cont):
        t = fall
        for st in reversed(body):
            t = self.stmt(st, t, ret, brk, cont)
        return t

    def tainted(self, node):
        return self.ctx.tests.get(node, False)

    def check(self, node, a, b, what):
        an = self.an
        an.stats["rank_branches"] += 1
        if an.has_events(a) or an.has_events(b):
            an.stats["branches_with_collectives"] += 1
        if a != b and an.RAISE not in (a, b):
            if an.has_events(a) or an.has_events(b):
                an.report(
                    self.f, node, "rank-divergent-collective",
                    f"{what} in {self.f.short()} depends on the executing process and its two "
                    f"outcomes run different collective sequences :: [{an.show(a)}] vs [{an.show(b)}]",
                )

    def stmt(self, st, fall, ret, brk, cont):
        an = self.an
        if isinstance(st, ast.Return):
            return self.expr(st.value, ret)
        if isinstance(st, ast.Raise):
            x = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            if x is not None and (dotted(x) or "").endswith("StopIteration"):
                return ret  # the ordinary end of a task, not a failure
            return an.RAISE
        if isinstance(st, ast.Break):
            return brk
        if isinstance(st, ast.Continue):
            return cont
        if isinstance(st, ast.If):
            a = self.block(st.body, fall, ret, brk, cont)
            b = self.block(st.orelse, fall, ret, brk, cont)
            if self.tainted(st):
                self.check(st, a, b, "branch")
            return self.expr(st.test, an.alt(a, b))
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(st.orelse, fall, ret, brk, cont) if st.orelse else fall
            # a loop that runs no collective except on its way out, after which it runs what would have followed
            held, self.an.quiet = self.an.quiet, True
            hyp = self.block(st.body, after, ret, fall, after)
            self.an.quiet = held
            if hyp == after and isinstance(st, (ast.For, ast.AsyncFor)):
                return self.expr(st.iter, after)
            if hyp == after and self.expr(st.test, an.LOOP) == an.LOOP:
                return after
            # body trace with loop-local continuations
            bt = self.block(st.body, an.LOOP, an.END, an.END, an.LOOP)
            test = st.test if isinstance(st, ast.While) else None
            if test is not None:
                bt = self.expr(test, bt)
            loop_has = an.has_events(bt)
            returns = _has_return(st.body)
            if self.tainted(st) and loop_has:
                an.stats["rank_loops"] += 1
                an.report(
                    self.f, st, "rank-divergent-loop",
                    f"loop in {self.f.short()} has a process-dependent number of iterations and "
                    f"contains collectives :: [{an.show(bt)}]",
                )
            if loop_has:
                self._loop_breaks(st)
                t = an._mk(("loop", bt, after))
            else:
                t = after
                if returns:
                    # a return inside the loop skips `after`
                    self._loop_returns(st, after, ret)
                    rt = ret
                    t = an.alt(after, rt) if rt != after else after
            if isinstance(st, (ast.For, ast.AsyncFor)):
                t = self.expr(st.iter, t)
            return t
        if isinstance(st, (ast.With, ast.AsyncWith)):
            t = self.block(st.body, fall, ret, brk, cont)
            for it in reversed(st.items):
                t = self.expr(it.context_expr, t)
            return t
        if isinstance(st, ast.Try):
            fin = lambda k: self.block(st.finalbody, k, ret, brk, cont) if st.finalbody else k
            ffall, fret, fbrk, fcont = fin(fall), fin(ret), fin(brk), fin(cont)
            els = self.block(st.orelse, ffall, fret, fbrk, fcont) if st.orelse else ffall
            t = self.block(st.body, els, fret, fbrk, fcont)
            for h in st.handlers:
                ht = self.block(h.body, ffall, fret, fbrk, fcont)
                if _per_process(h.type):
                    self.check(st, t, ht, "handler of a fault of one process")
                t = an.alt(t, ht)
            return t
        if isinstance(st, ast.Match):
            ts = [self.block(c.body, fall, ret, brk, cont) for c in st.cases] + [fall]
            t = ts[0]
            for o in ts[1:]:
                if self.tainted(st):
                    self.check(st, t, o, "match")
                t = an.alt(t, o)
            return self.expr(st.subject, t)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return fall
        t = fall
        for ch in reversed(list(ast.iter_child_nodes(st))):
            if isinstance(ch, ast.expr):
                t = self.expr(ch, t)
        return t

    def _loop_breaks(self, loop):
        """Rank-dependent break/continue/return inside a loop with collectives is covered by
        the comparison in `stmt` for the enclosing if: break leads to END, next to LOOP."""

    def _loop_returns(self, loop, after, ret):
        if after == ret:
            return
        for n in _walk_loop(loop.body):
            if isinstance(n, ast.If) and self.tainted(n):
                if _has_return(n.body) != _has_return(n.orelse) and not _raises_only(n):
                    self.check(n, ret, after, "early return")
        if self.tainted(loop) and _has_return(loop.body):
            self.check(loop, ret, after, "early return")

    # expressions: prepend the events of evaluating e before continuation k
    def expr(self, e, k):
        an = self.an
        if e is None:
            return k
        if isinstance(e, ast.Call):
            t = self.call(e, k)
            for kw in reversed(e.keywords):
                t = self.expr(kw.value, t)
            for a in reversed(e.args):
                t = self.expr(a.value if isinstance(a, ast.Starred) else a, t)
            if isinstance(e.func, ast.Attribute):
                t = self.expr(e.func.value, t)
            return t
        if isinstance(e, ast.IfExp):
            a, b = self.expr(e.body, k), self.expr(e.orelse, k)
            if self.tainted(e):
                self.check(e, a, b, "conditional expression")
            return self.expr(e.test, an.alt(a, b))
        if isinstance(e, ast.BoolOp):
            t = k
            for i in range(len(e.values) - 1, 0, -1):
                r = self.expr(e.values[i], t)
                if self.tainted((e, i)):
                    self.check(e, r, k, "short-circuit operator")
                t = an.alt(r, k)
            return self.expr(e.values[0], t)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            body = an.LOOP
            if isinstance(e, ast.DictComp):
                body = self.expr(e.key, self.expr(e.value, body))
            else:
                body = self.expr(e.elt, body)
            for g in reversed(e.generators):
                for i in reversed(g.ifs):
                    if self.tainted(i):
                        self.check(i, body, an.LOOP, "comprehension filter")
                    body = self.expr(i, an.alt(body, an.LOOP))
            t = k
            if an.has_events(body):
                for g in e.generators:
                    if self.tainted(g):
                        an.report(self.f, e, "rank-divergent-loop",
                                  f"comprehension in {self.f.short()} has a process-dependent number of "
                                  f"iterations and contains collectives :: [{an.show(body)}]")
                t = an._mk(("loop", body, k))
            return self.expr(e.generators[0].iter, t)
        if isinstance(e, ast.Lambda):
            return k
        if isinstance(e, ast.Attribute) and e.attr == "collective" and isinstance(e.ctx, ast.Load):
            # h5py: what is read or written in this mode is read or written together
            return self.expr(e.value, an.ev("collective-io", k))
        t = k
        for ch in reversed(list(ast.iter_child_nodes(e))):
            if isinstance(ch, ast.expr):
                t = self.expr(ch, t)
            elif isinstance(ch, ast.keyword):
                t = self.expr(ch.value, t)
        return t

    def call(self, e, k):
        an = self.an
        cn = an.collective_name(e)
        callees = an.resolve_static(e, self.f)
        if callees:
            ts = []
            for c in callees:
                if an.is_collective_wrapper(c):
                    an.stats["collective_sites"].add((self.f.module.rel, e.lineno))
                    return an.ev(c.name, k)
                found = None
                for (ff, tp, cl), ctx in an.ctxs.items():
                    if ff is c:
                        found = ctx if found is None or ctx.trace is not None else found
                        if ctx.trace is not None:
                            break
                if found is None:
                    found = an.analyse(c)
                if found.trace is None:
                    ts.append(an.ev("rec:" + c.qualname, k) if c in an._may else k)
                else:
                    ts.append(an.splice(found.trace, k))
            t = ts[0]
            for o in ts[1:]:
                t = an.alt(t, o)
            return t
        if cn:
            an.stats["collective_sites"].add((self.f.module.rel, e.lineno))
            return an.ev(cn, k)
        fn = e.func
        if isinstance(fn, ast.Attribute):
            cands = [m for m in an.repo.methods_by_name.get(fn.attr, []) if m in an._may]
            r = an.repo.resolve_expr(fn, self.f.module, self.f) if dotted(fn) else None
            ext = isinstance(r, str) and r.split(".")[0] in ("numpy", "os", "logging", "shutil", "json", "h5py", "zarr", "subprocess")
            if cands and not ext and fn.attr not in GENERIC_NAMES:
                return an.ev("." + fn.attr, k)
        return k


# Method names too generic to attribute to a repo method without knowing the receiver.
GENERIC_NAMES = {"copy", "get", "items", "keys", "values", "close", "update", "append", "read", "write",
                 "__init__", "pop", "open", "create_dataset", "create_group", "require_group", "require_dataset",
                 "run", "start", "stop", "wait", "format", "index", "sort"}


def _walk_loop(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _has_return(body):
    return any(isinstance(n, ast.Return) for n in _walk_loop(body))


FAULTS = {
    "OSError", "IOError", "EnvironmentError", "PermissionError", "FileNotFoundError", "FileExistsError", "BlockingIOError", "TimeoutError", "InterruptedError",
    "NotADirectoryError", "IsADirectoryError", "ConnectionError", "MemoryError", "Exception", "BaseException", "error", "SubprocessError", "CalledProcessError",
}


def _per_process(t):
    """Faults that meet one process and not the others; a missing key or wrong type meets them all."""
    if t is None:
        return True
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    return any((dotted(x) or "").split(".")[-1] in FAULTS for x in ts)


def _raises_only(n):
    return all(isinstance(x, ast.Raise) for x in n.body[-1:])
