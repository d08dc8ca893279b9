"""P03: operations stay on the communicator they were given."""

import ast

from ..collectives import COLLECTIVE
from ..core import ClassInfo, FuncInfo, Repo, enclosing_class, walk_scope
from ..flow import NONE, Budget, Client, Engine, Term, mk
from ..report import Result

WORLD = {
    "caput.util.mpitools.rank", "caput.util.mpitools.size", "caput.util.mpitools.rank0",
    "caput.util.mpitools.world", "caput.util.mpitools._comm", "caput.util.mpitools.world_scomm", "mpi4py.MPI.COMM_WORLD", "mpi4py.MPI.COMM_SELF",
}
P2P = {"Send", "Recv", "Isend", "Irecv", "send", "recv", "isend", "irecv", "Sendrecv", "sendrecv", "Ssend", "Issend"}
COMM_ATTR = {"comm", "_comm"}


WORLD_COMMS = {"caput.util.mpitools.world", "caput.util.mpitools._comm", "mpi4py.MPI.COMM_WORLD"}


def is_comm_leaf(t):
    key = mk("const", "str", "comm")
    if t.k == "call" and t.a[1].k == "attr" and t.a[1].a[1] in ("pop", "get") and t.a[2] and t.a[2][0] is key:
        return True
    if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] == "getattr" and len(t.a[2]) > 1 and t.a[2][1] is key:
        return True
    return (t.k == "param" and t.a[0] in ("comm", "_comm")) or (t.k == "attr" and t.a[1] in COMM_ATTR)


def _only_getattr_default(term, t):
    """`getattr(x, "comm", world)`: the world is only the fallback of an object without communicator."""
    for x in term.walk():
        if t in set(x.subs()):
            if not (x.k == "call" and is_comm_leaf(x)) and not (x.k == "call" and x.a[1].k == "g" and x.a[1].a[0] == "getattr"):
                return False
    return term is not t


RETURNS = {}


def derived(t):
    """Does the value come from a communicator the function was handed?"""
    for x in t.walk():
        if is_comm_leaf(x):
            return True
        if x.k == "call" and x.a[1].k == "g" and isinstance(x.a[1].a[0], FuncInfo) and RETURNS.get(x.a[1].a[0]):
            return True
    return False


class _Ret(Client):
    max_depth = 1
    assume_total = True

    def inline(self, *a):
        return False


def compute_returns(repo):
    """Helpers that hand back the communicator of one of their arguments."""
    RETURNS.clear()
    for f in repo.all_functions():
        if f.parent is None and any(isinstance(n, ast.Attribute) and n.attr in COMM_ATTR for n in walk_scope(f.node)):
            try:
                o = Engine(repo, _Ret()).run(f)
            except Budget:
                continue
            vals = [x for _, v in o.ret for x in (v.a[0] if v.k == "phi" else [v])]
            vals = [v for v in vals if v is not NONE]
            if vals and all(is_comm_leaf(v) or v.k == "loopvar" for v in vals):
                RETURNS[f] = True


def validation_only(f):
    """`comm` is only compared: omitting it skips a sanity check, it selects nothing."""
    if "comm" not in f.params():
        return False
    for n in walk_scope(f.node):
        if isinstance(n, ast.Name) and n.id == "comm":
            p = PARENTS.get(n)
            while isinstance(p, (ast.BoolOp, ast.UnaryOp)):
                p = PARENTS.get(p)
            if not isinstance(p, (ast.Compare, ast.If, ast.FormattedValue, ast.arg)):
                return False
    return True


PARENTS = {}

# (caller, callee): reason.  Confirmed by reading.
EXCEPTIONS = {
    ("caput.memdata._memh5.MemDiskGroup.to_memory", "caput.memdata._memh5.MemDiskGroup.from_file"):
        "reached only for on-disk storage, which carries no communicator (self.comm is None there)",
}


class Accepts:
    """Which callables take a `comm`, directly or through **kwargs forwarding."""

    def __init__(self, repo):
        self.repo = repo
        self.memo = {}

    def __call__(self, f, seen=()):
        if f is None:
            return False
        if isinstance(f, ClassInfo):
            new, init = f.lookup("__new__"), f.lookup("__init__")
            return self(new, seen) or self(init, seen)
        if f in self.memo:
            return self.memo[f]
        if f in seen:
            return False
        r = "comm" in f.params()
        if not r and f.node.args.kwarg is not None:
            kw = f.node.args.kwarg.arg
            for n in walk_scope(f.node):
                if isinstance(n, ast.Call) and any(
                    k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw for k in n.keywords
                ):
                    if any(k.arg == "comm" for k in n.keywords):
                        continue
                    for c in self.callees(n, f):
                        if self(c, (*seen, f)):
                            r = True
        self.memo[f] = r
        return r

    def callees(self, n, f):
        fn = n.func
        if (
            isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call)
            and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
        ):
            c = enclosing_class(f)
            m = c.lookup_after(c, fn.attr) if c else None
            return [m] if m else []
        if isinstance(fn, ast.Name) and fn.id == "cls" and enclosing_class(f):
            return [enclosing_class(f)]
        r = self.repo.resolve_expr(fn, f.module, f)
        return [r] if isinstance(r, (FuncInfo, ClassInfo)) else []


def identity(t):
    """Is this a comparison of communicators with one another?"""
    return t.k == "cmp" and t.a[0] in ("is", "==") and any(is_comm_leaf(x) or x.k == "phi" and derived(x) for x in t.a[1:3])


def is_world(st, p):
    """On this path the communicator was found to be the world."""
    for t, v in st.facts.items():
        if v is True and t.k == "cmp" and t.a[0] in ("is", "==") and p in t.a[1:3]:
            o = t.a[2] if t.a[1] is p else t.a[1]
            if o.k == "g" and o.a[0] in WORLD_COMMS:
                return True
    return False


def made(v):
    fn = v.a[1] if v.k == "call" else None
    if fn is not None and fn.k == "unbound_method" and isinstance(fn.a[1], ClassInfo) and fn.a[0].name.startswith("from_"):
        return fn.a[1]
    return None


def makes(name):
    """A class held in a variable, or one of its alternative constructors."""
    return name is None or name == "__class__" or name.startswith("from_")


CARRIES = {}


def compute_carries(repo):
    """Parameters of module functions to which an object with a communicator (`self`) is handed."""
    CARRIES.clear()
    for f in repo.all_functions():
        cls = enclosing_class(f)
        if cls is None or not f.is_method or f.is_static or f.is_classmethod or not has_comm(cls) or not f.node.args.args:
            continue
        me = f.node.args.args[0].arg
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = repo.resolve_expr(n.func, f.module, f)
            if not isinstance(r, FuncInfo) or r.is_method:
                continue
            pos = [x.arg for x in r.node.args.posonlyargs + r.node.args.args]
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == me and i < len(pos):
                    CARRIES.setdefault(r, set()).add(pos[i])
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.value.id == me:
                    CARRIES.setdefault(r, set()).add(k.arg)


def ignored(f):
    """A communicator is taken and never looked at."""
    if "comm" not in f.params():
        return False
    if any(isinstance(n, ast.Name) and n.id == "comm" and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
        return False
    body = [n for n in f.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    return any(not isinstance(n, (ast.Pass, ast.Raise)) for n in body)


class CommClient(Client):
    max_depth = 1
    assume_total = False
    max_states = 16

    def __init__(self, res, f, accepts, avail_self):
        self.res, self.f, self.accepts, self.avail_self = res, f, accepts, avail_self

    def inline(self, eng, callee, depth):
        return False

    def available(self, eng, st):
        """Communicator terms in reach on this path (not known to be None)."""
        out = []
        if "comm" in self.f.params():
            v = st.env.get("comm", mk("param", "comm"))
            p = mk("param", "comm")
            if eng.is_none(st, p) is not True and st.facts.get(p) is not False and not is_world(st, p):
                out.append(p)
        for t in self.carriers(eng, st):
            if eng.is_none(st, t) is not True and st.facts.get(t) is not False:
                out.append(t)
        if self.avail_self is not None:
            for a in ("comm", "_comm"):
                t = mk("attr", self.avail_self, a)
                if eng.is_none(st, t) is True or st.facts.get(t) is False:
                    return [x for x in out]
            out.append(mk("attr", self.avail_self, "comm"))
        for v in st.env.values():
            if v.k in ("attr", "call") and is_comm_leaf(v) and not is_world(st, v) and eng.is_none(st, v) is not True and st.facts.get(v) is not False:
                out.append(v)
        return out

    def carriers(self, eng, st):
        """Communicators of the objects handed in that are known to have one."""
        for t, v in st.facts.items():
            if v is True and t.k == "isinst" and t.a[0].k in ("param", "new", "call"):
                c = t.a[1]
                cs = c.a[0] if c.k in ("tuple", "phi") else (c,)
                if cs and all(x.k == "g" and isinstance(x.a[0], ClassInfo) and has_comm(x.a[0]) for x in cs):
                    yield mk("attr", t.a[0], "comm")
        for v in set(st.env.values()):
            if v.k in ("call", "new"):
                c = made(v)
                if isinstance(c, ClassInfo) and has_comm(c):
                    yield mk("attr", v, "comm")
        for p in CARRIES.get(self.f, ()):
            yield mk("attr", mk("param", p), "comm")

    def loc(self, node):
        return self.f.loc(node)

    def on_call(self, eng, st, node, fn, args, kws, callee):
        name = callee.name if isinstance(callee, (FuncInfo, ClassInfo)) else (fn.a[1] if fn.k == "attr" else None)
        if callee is not None and self.accepts(callee) and not (isinstance(callee, FuncInfo) and validation_only(callee)) and not (
            # serial access requested: the communicator is not consulted
            any(k == "use_mpi" and v is mk("const", "bool", False) for k, v in kws)
        ):
            target = callee
            if isinstance(callee, ClassInfo):
                new, init = callee.lookup("__new__"), callee.lookup("__init__")
                target = new if new is not None and self.accepts(new) else init
            self.res.stats["forwarding_sites"] += 1
            # super().__init__ style forwarding keeps positional layout
            lead = [] if target.is_static or not target.is_method else [NONE]
            if fn.k == "unbound_method" and not target.is_classmethod and not target.is_static:
                lead = []
            env = eng.bind(target, st, lead + args, kws, fn)
            explicit = any(k == "comm" for k, _ in kws)
            val = None
            for k, v in kws:
                if k == "**" and v.k == "dict":
                    for kk, vv in v.a[1]:
                        if kk is mk("const", "str", "comm"):
                            val = vv
            if val is not None:
                pass
            elif explicit:
                val = dict(kws)["comm"]
            elif env is not None and "comm" in env and "comm" in target.params():
                pos = [x.arg for x in target.node.args.posonlyargs + target.node.args.args]
                if "comm" in pos and pos.index("comm") < len(lead) + len([a for a in args if a.k != "star"]):
                    val = env["comm"]
            star = any(k == "**" for k, _ in kws) or any(a.k == "star" for a in args)
            av = self.available(eng, st)
            if av and (self.f.qualname, callee.qualname) not in EXCEPTIONS:
                self.res.stats["obligations"] += 1
                if val is None:
                    # passing on **kwargs / *args is fine when the function has no communicator of its own to add
                    own = "comm" in self.f.params()
                    if not star or (own and not self._star_has_comm(st, kws, args)):
                        self.res.add(
                            "communicator-not-forwarded", self.f.qualname, f"->{self._nm(callee)}", self.loc(node),
                            f"call of {self._nm(callee)} does not pass on the communicator in reach ({av[0]!r}); "
                            "the callee falls back to the world communicator",
                        )
                elif not derived(val) and not self._excused(eng, st, val):
                    self.res.add(
                        "communicator-replaced", self.f.qualname, f"->{self._nm(callee)}", self.loc(node),
                        f"call of {self._nm(callee)} passes {val!r} as communicator although {av[0]!r} is in reach",
                    )
        elif fn.k == "attr" and (fn.a[1] in COLLECTIVE or fn.a[1] in P2P) and fn.a[0].k != "g":
            self.res.stats["communication_sites"] += 1
        elif fn.k == "attr" and fn.a[0].k == "g" and fn.a[0].a[0] in WORLD:
            self.world(eng, st, fn.a[0], node)
        elif callee is None and makes(name) and any(k == "distributed" for k, _ in kws) and not any(
            k == "comm" or k == "**" and not (v.k == "attr" and v.a[0].k == "self") for k, v in kws
        ):
            av = self.available(eng, st)
            self.res.stats["obligations"] += 1
            if av:
                self.res.add(
                    "communicator-not-forwarded", self.f.qualname, f"->{name}", self.loc(node),
                    f"an object is made distributed without passing on the communicator in reach ({av[0]!r})",
                )
        elif fn.k == "g" and isinstance(fn.a[0], str) and fn.a[0].rpartition(".")[0] in WORLD:
            self.world(eng, st, mk("g", fn.a[0].rpartition(".")[0]), node)
        if not (fn.k == "g" and fn.a[0] == "getattr"):
            for a in args + [v for _, v in kws]:
                if not (callee is not None and self.accepts(callee) and a.k == "g"):
                    self.scan(eng, st, a, node)
        return None

    def _star_has_comm(self, st, kws, args):
        return False

    def _excused(self, eng, st, val):
        if val is NONE:
            return False
        return val.k in ("kwitem", "item", "unk", "loopvar") or any(
            x.k in ("param", "kwitem") and x.a[0] not in ("self",) for x in val.walk() if x.k in ("kwitem",)
        )

    def _nm(self, c):
        return c.qualname if c.qualname.startswith("caput") else c.name

    def on_return(self, eng, st, val, node):
        self.scan(eng, st, val, node)
        return st

    def on_store_attr(self, eng, st, base, attr, val, node):
        self.scan(eng, st, val, node)
        return st

    def on_store_item(self, eng, st, base, idx, val, node):
        self.scan(eng, st, val, node)
        return st

    def on_branch(self, eng, st, term, taken, node):
        if not identity(term):
            self.scan(eng, st, term, node, skip=term)
        return st

    def scan(self, eng, st, term, node, skip=None):
        """World-level identity used in a value the path depends on."""
        for t in term.walk():
            if t.k == "g" and t.a[0] in WORLD:
                # identity / equality tests against a communicator are not uses of it
                if skip is not None and skip.k == "cmp" and skip.a[0] in ("is", "==") and t in (skip.a[1], skip.a[2]) and (
                    identity(skip) or NONE in (skip.a[1], skip.a[2])
                ):
                    continue
                if _only_getattr_default(term, t):
                    continue
                if any(x.k == "phi" and derived(x) and any(y.contains(t) for y in x.a[0]) for x in term.walk()):
                    continue  # default substitution joined with the given communicator
                saved = st
                if skip is not None:
                    saved = st.copy()
                    saved.facts.pop(skip, None)
                self.world(eng, saved, t, node)

    def world(self, eng, st, val, node):
        av = self.available(eng, st)
        self.res.stats["world_uses_seen"] += 1
        if not av:
            return
        self.res.add(
            "world-used-with-communicator-in-reach", self.f.qualname, str(val.a[0]), self.loc(node),
            f"{val.a[0]} is used although the operation has the communicator {av[0]!r}",
        )


def has_comm(cls):
    """Instances of the class carry a communicator."""
    if cls is None:
        return False
    for c in cls.mro():
        if not isinstance(c, ClassInfo):
            continue
        if "comm" in c.methods and c.methods["comm"].is_property:
            return True
        for f in c.methods.values():
            for n in walk_scope(f.node):
                if (
                    isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in COMM_ATTR
                    and isinstance(n.value, ast.Name) and n.value.id == "self"
                ):
                    return True
    return False


def _defines_comm(f):
    """Constructors and accessors that set the object's communicator in the first place."""
    for n in walk_scope(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in COMM_ATTR:
            if isinstance(n.value, ast.Name) and n.value.id in ("self", "arr", "obj"):
                return f.name in ("__init__", "__new__", "__array_finalize__", "__setstate__")
    return False


def run(repo, tier):
    res = Result(stats={"functions": 0, "forwarding_sites": 0, "obligations": 0, "world_uses_seen": 0, "communication_sites": 0, "budget_exceeded": 0})
    accepts = Accepts(repo)
    PARENTS.clear()
    PARENTS.update(repo.parents)
    compute_returns(repo)
    compute_carries(repo)
    for f in repo.all_functions():
        if f.parent is not None:
            continue
        cls = enclosing_class(f)
        avail = None
        if cls is not None and f.is_method and not f.is_static and not f.is_classmethod and has_comm(cls):
            if not (f.name in ("__init__", "__new__", "__array_finalize__") or _defines_comm(f)):
                avail = mk("self", cls)
        res.stats["functions"] += 1
        if ignored(f):
            res.add("communicator-ignored", f.qualname, "comm", f.loc(), f"{f.short()} takes a communicator and never uses it")
        eng = Engine(repo, CommClient(res, f, accepts, avail))
        try:
            eng.run(f)
        except Budget:
            res.stats["budget_exceeded"] += 1
    res.floors = {"functions": 400, "obligations": 15}
    res.explanation = (
        "Every function was walked path by path with value provenance; at each call of a repository callable that takes a "
        "communicator (directly or through forwarded keyword arguments), while a communicator is in reach, the bound value must "
        "derive from it; world-level rank/size/communicator values must not reach a call argument, branch, store or result on such a path."
    )
    res.assumptions = [f"exception table: {k}: {v}" for k, v in EXCEPTIONS.items()]
    return res


POS = """
def part(n, comm=None):
    if comm is None:
        from caput.util import mpitools
        return mpitools.rank
    return comm.rank
def lost(n, comm=None):
    return part(n)
def replaced(n, comm=None):
    return part(n, comm=None)
def unused(n, comm=None):
    return n + 1
def direct(x, comm=None):
    if comm is None:
        return x
    from caput.util import mpitools
    return mpitools.world.bcast(x)
def stored(d, comm=None):
    from mpi4py import MPI
    if comm is not None:
        d["comm"] = MPI.COMM_WORLD
    return d
class Arr:
    def __init__(self, comm):
        self._comm = comm
    @property
    def comm(self):
        return self._comm
def carried(x, n):
    if isinstance(x, Arr):
        return part(n)
    return n
def klass(x, kind):
    if isinstance(x, Arr):
        return kind(distributed=True)
"""
NEG = """
def part(n, comm=None):
    if comm is None:
        from caput.util import mpitools
        return mpitools.rank
    return comm.rank
def good(d, comm=None):
    from mpi4py import MPI
    d["comm"] = comm if comm is not None else MPI.COMM_WORLD
    opts = {"comm": comm}
    return part(1, **opts)
"""


def selftest():
    r = Repo(sources={"caput/x.py": POS})
    got = {f.construct.split(".")[-1] for f in run(r, "quick").findings}
    neg = run(Repo(sources={"caput/x.py": NEG}), "quick").findings
    return [(n, n in got) for n in ("lost", "replaced", "unused", "direct", "stored", "carried", "klass")] + [("negatives", not neg)]
