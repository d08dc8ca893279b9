"""P16: no accepted option is silently ignored, dropped on the way down, or crossed with another."""

import ast

from ..core import ClassInfo, FuncInfo, Repo, enclosing_class, walk_scope
from ..flow import ANY_EXC, Budget, Client, Engine
from ..report import Result

# method names that objects of other packages have too
FOREIGN = {n for t in (str, bytes, dict, list, set, tuple, frozenset, int, float, object) for n in dir(t)} | {
    "open", "close", "flush", "read", "write", "seek", "run", "start", "stop", "join", "put", "send", "recv", "wait", "submit", "result", "filter", "apply",
    "reshape", "transpose", "ravel", "astype", "sum", "mean", "min", "max", "all", "any", "view", "resize", "fill", "dot", "take", "tolist",
    "gather", "bcast", "reduce", "scatter", "allreduce", "allgather", "create_dataset", "require_dataset", "create_group", "require_group", "save", "load", "dump", "dumps",
    "uniform", "normal", "random", "gamma", "chisquare", "integers", "choice", "integrate",
}

LIFECYCLE = {"setup", "next", "process", "finish", "process_finish"}


class Reads(Client):
    """Which parameters' original values are ever read (in the function or a closure of it)."""

    max_states = 12

    def __init__(self, params):
        self.params = params
        self.read = set()

    def initial(self, f):
        return None

    def inline(self, eng, callee, depth):
        return False

    def on_subscript(self, eng, st, b, i, t, e, out):
        out.exc.append((st, ANY_EXC))
        return None

    def on_load(self, eng, st, term, node):
        return st

    def on_load_name(self, eng, st, name, val, node):
        if name in self.params:
            for x in val.walk():
                if x.k == "param":
                    self.read.add(x.a[0])
        return st


def star_params(f):
    a = f.node.args
    return [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def reads(repo, f):
    ps = set(f.bound_params()) | set(star_params(f))
    if not ps:
        return ps, ps
    c = Reads(ps)
    try:
        Engine(repo, c).run(f)
    except Budget:
        c.read |= {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    # reads inside nested functions and lambdas see the value at that time
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and n is not f.node:
            bound = set()
            if not isinstance(n, ast.ClassDef):
                a = n.args
                bound = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []), *([a.kwarg] if a.kwarg else [])]}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in ps and x.id not in bound:
                    c.read.add(x.id)
    # handlers may be reached in ways the walk does not model (attribute errors, ...)
    for n in ast.walk(f.node):
        if isinstance(n, ast.ExceptHandler):
            c.read |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in ps}
    # locals() uses everything
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") and not n.args:
            c.read |= ps
    return ps, c.read


def trivial(f):
    """Interface stub: only a docstring, pass, a constant return or a raise."""
    for st in f.node.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, (ast.Pass, ast.Raise)):
            continue
        if isinstance(st, ast.Return) and (st.value is None or isinstance(st.value, (ast.Constant, ast.Dict, ast.List, ast.Tuple))):
            continue
        return False
    return True


def interface(repo, f):
    """Signature fixed by someone else: protocol methods, task life cycle, overrides, callbacks."""
    if f.name.startswith("__") and f.name.endswith("__") and f.name not in ("__init__", "__call__"):
        return True
    if f.cls is not None and f.name in LIFECYCLE:
        return True
    return False


def callbacks(repo):
    """Functions mentioned other than by calling them (dispatch tables, decorators, registration)."""
    out = set()
    for m in repo.modules.values():
        called = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                nm = n.attr if isinstance(n, ast.Attribute) else n.id
                out.add((m.rel, nm))
    return out


def base_declares(f, p):
    c = f.cls
    if c is None:
        return False
    for b in [x for x in c.mro()[1:] if isinstance(x, ClassInfo)]:
        g = b.methods.get(f.name)
        if g is not None and (p in g.all_params() or p in star_params(g)):
            return True
    return False


def override_uses(repo, f, p, uses):
    if f.cls is None:
        return False
    for c in f.cls.all_subclasses():
        g = c.methods.get(f.name)
        if g is not None and p in uses.get(g, (set(), set()))[1]:
            return True
    return False


def callee_candidates(repo, f, call, byname):
    g = repo.resolve_expr(call.func, f.module, f)
    if isinstance(g, ClassInfo):
        g = g.lookup("__init__")
    if isinstance(g, FuncInfo):
        return [g]
    if not isinstance(call.func, ast.Attribute):
        return []
    if g is not None:
        # a name of another package, or of the interpreter, is not one of ours
        if not isinstance(g, str):
            return []
        head = g.split(".")[0]
        m = f.module
        if head in m.imports or head in m.globals or any(head == x for x in getattr(m, "aliases", ())) or external(repo, f, call.func):
            return []
    v = call.func.value
    c = enclosing_class(f)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
        r = c.lookup_after(c, call.func.attr) if c else None
        return [r] if isinstance(r, FuncInfo) else []
    if isinstance(v, ast.Name) and v.id in ("self", "cls") and c is not None:
        r = c.lookup(call.func.attr)
        if isinstance(r, FuncInfo):
            return [r]
    cands = byname.get(call.func.attr, [])
    if call.func.attr in FOREIGN and not any(k.arg and all(k.arg in x.bound_params() for x in cands) for k in call.keywords):
        return []
    return narrow(cands, call)


def external(repo, f, e):
    """The object is a module, or something imported from outside the package."""
    while isinstance(e, ast.Attribute):
        e = e.value
    if not isinstance(e, ast.Name):
        return False
    g = f
    while g is not None:
        if e.id in repo.local_imports(g):
            return True
        g = g.parent
    return e.id in f.module.imports or e.id in f.module.globals


def narrow(cands, call):
    """Of the routines of that name, those that take the arguments given by name."""
    given = {k.arg for k in call.keywords if k.arg}
    exact = [x for x in cands if given <= set(x.bound_params())]
    return (exact if given and exact else cands)


def depends(f, e, p, seen=()):
    """The expression may depend on the value of parameter p, through local definitions."""
    top = f
    while top.parent is not None:
        top = top.parent
    todo, done = [e], set()
    while todo:
        for x in ast.walk(todo.pop()):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars"):
                return True
            if not isinstance(x, ast.Name) or x.id in done:
                continue
            if x.id == p:
                return True
            done.add(x.id)
            for n in ast.walk(top.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(y, ast.Name) and y.id == x.id for t in ts for y in ast.walk(t)):
                        todo.append(n.value)
                        # chosen by a test on the option
                        todo += [a.test for a in ancestors_if(top, n)]
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(n.target)):
                    todo.append(n.iter)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    todo += [i.context_expr for i in n.items if i.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(i.optional_vars))]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x.id and n.func.attr in ("append", "extend", "update", "add", "insert", "setdefault"):
                    todo += [*n.args, *[k.value for k in n.keywords]]
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and getattr(n, "name", None) == x.id:
                    todo += n.body
    return False


def ancestors_if(top, node):
    return [n for n in ast.walk(top.node) if isinstance(n, (ast.If, ast.While)) and n is not node and any(x is node for x in ast.walk(n))]


def tested(f, call, p, parents):
    """The call sits under a test that looks at the option."""
    n = call
    while n is not None and n is not f.node:
        par = parents.get(n)
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and n is not par.test and depends(f, par.test, p):
            return True
        if any(depends(f, s.test, p) for s, _ in left_before(par, n)):
            return True
        n = par
    return False


def leaves(body):
    """The statements never run on to what follows them."""
    last = body[-1] if body else None
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(last, ast.If) and leaves(last.body) and leaves(last.orelse)


def left_before(par, n):
    """(decision, outcome it has where n runs) for earlier statements of n's block one side of which leaves it."""
    out = []
    for name in ("body", "orelse", "finalbody"):
        blk = getattr(par, name, None)
        if isinstance(blk, list) and any(x is n for x in blk):
            for s in blk:
                if s is n:
                    break
                if isinstance(s, ast.If) and leaves(s.body) != leaves(s.orelse):
                    out.append((s, not leaves(s.body)))
    return out


MPI_ROOT = {"gather", "Gather", "Gatherv", "bcast", "Bcast", "reduce", "Reduce", "scatter", "Scatter", "Scatterv", "igather", "Igather", "Igatherv", "ibcast", "Ibcast"}


def is_none_path(f, call, p, parents):
    """The call sits under a test that established p carries no information (p is None / not p)."""
    n = call
    while n is not None and n is not f.node:
        par = parents.get(n)
        if isinstance(par, (ast.If, ast.IfExp)) and n is not par.test:
            body = par.body if isinstance(par.body, list) else [par.body]
            if says_none(par.test, n in body, p):
                return True
        if any(says_none(s.test, outcome, p) for s, outcome in left_before(par, n)):
            return True
        n = par
    return False


def says_none(t, outcome, p):
    """That the test came out this way means p carries no information."""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) == (outcome != neg)):
        return any(says_none(v, outcome != neg, p) for v in t.values)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant):
        eq = isinstance(t.ops[0], (ast.Is, ast.Eq))
        return t.left.id == p and (eq != neg) == outcome
    return isinstance(t, ast.Name) and t.id == p and neg == outcome


def run(repo, tier):
    res = Result(stats={"functions": 0, "parameters": 0, "forwarding_obligations": 0, "constructor_options": 0, "config_options": 0})
    uses = {}
    for f in repo.all_functions():
        if f.is_overload:
            continue
        uses[f] = reads(repo, f)
    cbs = callbacks(repo)
    for f, (ps, rd) in uses.items():
        res.stats["functions"] += 1
        res.stats["parameters"] += len(ps)
        for p in sorted(ps - rd):
            if p.startswith("_") or p in ("objtype", "memo"):
                continue
            if interface(repo, f) or trivial(f):
                continue
            if base_declares(f, p) or override_uses(repo, f, p, uses):
                continue
            if f.name.startswith("_") and f.name != "__init__" and (f.module.rel, f.name) in cbs:
                continue
            if f.cls is not None and f.cls.name.startswith("_") and f.name == "__init__":
                continue
            res.add("option-never-read", f.qualname, p, f.loc(), f"{f.short()} accepts '{p}' but its value is never used")
    byname = {}
    for f in repo.all_functions():
        if f.cls is not None and f.parent is None and not f.is_overload:
            byname.setdefault(f.name, []).append(f)
    for f in repo.all_functions():
        if f.is_overload:
            continue
        ps, own = set(), set(f.bound_params())
        g = f
        while g is not None:
            ps |= set(g.bound_params()) | popped(g)
            g = g.parent
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Call):
                continue
            cands = callee_candidates(repo, f, n, byname)
            if not cands:
                self_ = n.func.attr if isinstance(n.func, ast.Attribute) else None
                if self_ in MPI_ROOT and "root" in own and "comm" in ast.unparse(n.func.value).lower():
                    res.stats["forwarding_obligations"] += 1
                    v = next((k.value for k in n.keywords if k.arg == "root"), n.args[-1] if len(n.args) > 1 else None)
                    if not any(k.arg is None for k in n.keywords) and (v is None or not depends(f, v, "root")) and not tested(f, n, "root", repo.parents):
                        res.add("option-not-forwarded", f.qualname, f"{ast.unparse(n.func)}:root", f.loc(n), f"{f.short()} accepts 'root' but calls {ast.unparse(n.func)} without it")
                continue
            if not any(isinstance(x, ast.Starred) for x in n.args):
                given = {k.arg for k in n.keywords if k.arg}
                stars = [k.value for k in n.keywords if k.arg is None]
                for p in sorted(ps):
                    if not all(p in x.bound_params() for x in cands):
                        continue
                    if p in ("self", "cls"):
                        continue
                    res.stats["forwarding_obligations"] += 1
                    pos = all(p in x.bound_params()[: len(n.args)] for x in cands)
                    if p in given or pos or any(p in x.bound_params()[: len(n.args)] for x in cands):
                        v = next((k.value for k in n.keywords if k.arg == p), None)
                        unbound = isinstance(n.func, ast.Attribute) and isinstance(repo.resolve_expr(n.func.value, f.module, f), ClassInfo) and len(cands) == 1 and cands[0].is_method
                        if v is None and len(cands) == 1 and pos and not unbound:
                            v = n.args[cands[0].bound_params().index(p)]
                        if v is None or (required(cands, p) and required([f], p)) or p not in own or depends(f, v, p) or tested(f, n, p, repo.parents):
                            continue
                        res.add(
                            "option-replaced", f.qualname, f"{ast.unparse(n.func)}:{p}", f.loc(n),
                            f"{f.short()} accepts '{p}' but calls {ast.unparse(n.func)} with {ast.unparse(v)} in its place",
                        )
                        continue
                    if any(star_may_hold(f, s, p) for s in stars):
                        continue
                    if is_none_path(f, n, p, repo.parents):
                        continue
                    if required(cands, p):
                        continue
                    if recursive_state(f, cands):
                        continue
                    res.add(
                        "option-not-forwarded", f.qualname, f"{ast.unparse(n.func)}:{p}", f.loc(n),
                        f"{f.short()} accepts '{p}' and calls {ast.unparse(n.func)}, which accepts the same option, without passing it on",
                    )
            # crossed options
            slots = [(k.arg, k.value) for k in n.keywords if k.arg]
            if len(cands) == 1 and not any(isinstance(x, ast.Starred) for x in n.args):
                slots += list(zip(cands[0].bound_params(), n.args))
            for slot, v in slots:
                if isinstance(v, ast.Name) and v.id in own and slot in own and slot != v.id and all(v.id in x.bound_params() for x in cands):
                    res.add("options-crossed", f.qualname, f"{ast.unparse(n.func)}:{slot}", f.loc(n), f"option '{v.id}' is passed to {ast.unparse(n.func)} as '{slot}', although '{slot}' is an option of its own")
    renamed_options(repo, res, byname)
    sibling_options(repo, res, byname)
    storage_options(repo, res, byname)
    constructor_options(repo, res)
    config_options(repo, res)
    res.floors = {"functions": 350, "parameters": 700, "forwarding_obligations": 60, "config_options": 60}
    res.explanation = (
        "For every function: each parameter's incoming value must be read (dataflow, so overwriting it first does not count); each call to a "
        "callee inside the package that accepts an option of the same name must pass it on and must not put another option in its place; each option kept on an object and each declared "
        "configuration option must be read somewhere."
    )
    res.assumptions = ["an option that is read takes effect", "protocol methods, life-cycle methods, stubs and callbacks have signatures imposed on them"]
    return res


def renamed_options(repo, res, byname):
    """Within one routine: an option handed to a helper under another name in one call is handed over in every call of it."""
    fams = {}
    for f in repo.all_functions():
        if f.is_overload:
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        fams.setdefault(top, []).append(f)
    for top, fs in fams.items():
        calls = {}
        for f in fs:
            opts, g = set(), f
            while g is not None:
                opts |= set(g.bound_params()) | popped(g)
                g = g.parent
            for n in walk_scope(f.node):
                if isinstance(n, ast.Call):
                    c = callee_candidates(repo, f, n, byname)
                    if len(c) == 1:
                        calls.setdefault(c[0], []).append((f, n, opts))
        for c, sites in calls.items():
            if len(sites) < 2:
                continue
            want = {}
            for f, n, opts in sites:
                for k in n.keywords:
                    if k.arg and isinstance(k.value, ast.Name) and k.value.id in opts and k.value.id != k.arg:
                        o = want.setdefault(k.arg, k.value.id)
                        if o != k.value.id and optional_of(fs, o) and optional_of(fs, k.value.id):
                            res.add(
                                "options-crossed", f.qualname, f"{ast.unparse(n.func)}:{k.arg}", f.loc(n),
                                f"{f.short()} hands '{k.value.id}' to {ast.unparse(n.func)} as '{k.arg}' here and '{o}' elsewhere",
                            )
            for slot, opt in want.items():
                for f, n, opts in sites:
                    if opt not in opts:
                        continue
                    res.stats["forwarding_obligations"] += 1
                    if any(k.arg == slot or k.arg is None for k in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args):
                        continue
                    ps = c.bound_params()
                    if slot in ps[: len(n.args)] or required([c], slot) or is_none_path(f, n, opt, repo.parents):
                        continue
                    res.add(
                        "option-not-forwarded", f.qualname, f"{ast.unparse(n.func)}:{slot}", f.loc(n),
                        f"{f.short()} hands '{opt}' to {ast.unparse(n.func)} as '{slot}' elsewhere but leaves it out of this call",
                    )


def optional_of(fs, p):
    for f in fs:
        if p in f.bound_params() and not required([f], p):
            return True
    return False


def sibling_options(repo, res, byname):
    """Within one routine: what is handed to one helper by name is handed to every other helper that takes it by that name."""
    for f in repo.all_functions():
        if f.is_overload:
            continue
        calls = [(n, callee_candidates(repo, f, n, byname)) for n in walk_scope(f.node) if isinstance(n, ast.Call)]
        want = {}
        for n, c in calls:
            for k in n.keywords:
                if k.arg and c and isinstance(k.value, ast.Name):
                    want.setdefault(k.arg, {}).setdefault(k.value.id, n)
        for k, vs in want.items():
            if len(vs) != 1:
                continue
            v, n0 = next(iter(vs.items()))
            if k != v:
                continue
            for n, c in calls:
                if n is n0 or not c or not all(k in x.bound_params() for x in c) or required(c, k):
                    continue
                res.stats["forwarding_obligations"] += 1
                if any(x.arg in (k, None) for x in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args) or any(k in x.bound_params()[: len(n.args)] for x in c):
                    continue
                if tested(f, n, v, repo.parents):
                    continue
                # defined only on the way to the other call
                if not exclusive(repo, f, n, n0) and not defined_before(f, v, n):
                    continue
                res.add("option-not-forwarded", f.qualname, f"{ast.unparse(n.func)}:{k}", f.loc(n), f"{f.short()} hands '{v}' to another routine as '{k}' but leaves it out of the call of {ast.unparse(n.func)}, which takes it too")


STORAGE = ("chunks", "compression", "compression_opts")


def storage_options(repo, res, byname):
    """How a dataset is to be stored must reach every call that creates it, also through helpers that take any keyword."""
    direct = {}
    for f in repo.all_functions():
        if not f.is_overload:
            direct[f] = [n for n in walk_scope(f.node) if isinstance(n, ast.Call)]

    def makes(f, n):
        return isinstance(n.func, ast.Attribute) and n.func.attr in ("create_dataset", "require_dataset")

    creators = {f for f, ns in direct.items() if any(makes(f, n) for n in ns) and f.cls is None}
    grew = True
    targets = {(f, n): callee_candidates(repo, f, n, byname) for f, ns in direct.items() for n in ns}
    while grew:
        grew = False
        for (f, n), c in targets.items():
            if f not in creators and c and all(x in creators for x in c):
                creators.add(f)
                grew = True
    for f, ns in direct.items():
        opts = [p for p in STORAGE if p in f.bound_params()]
        for n in ns:
            c = targets[(f, n)]
            if not (c and all(x in creators for x in c)):
                continue
            for p in opts:
                res.stats["forwarding_obligations"] += 1
                if all(p in x.bound_params() for x in c):
                    continue  # asked of it like any other option
                v = next((k.value for k in n.keywords if k.arg == p), None)
                stars = [k.value for k in n.keywords if k.arg is None]
                ok = v is not None and (depends(f, v, p) or tested(f, n, p, repo.parents))
                ok = ok or any(depends(f, s, p) for s in stars) or is_none_path(f, n, p, repo.parents)
                if not ok:
                    res.add(
                        "storage-option-dropped", f.qualname, f"{ast.unparse(n.func)}:{p}", f.loc(n),
                        f"{f.short()} accepts '{p}' but the dataset created by {ast.unparse(n.func)} does not get it",
                    )


def exclusive(repo, f, a, b):
    """The two calls are alternatives: in different branches of one decision."""
    def path(n):
        out = []
        while n is not None and n is not f.node:
            par = repo.parents.get(n)
            if isinstance(par, ast.If) and n is not par.test:
                out.append((par, n in par.body))
            n = par
        return dict((id(p), s) for p, s in out)

    pa, pb = path(a), path(b)
    return any(k in pb and pb[k] != s for k, s in pa.items())


def defined_before(f, v, call):
    if v in f.all_params():
        return True
    return any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) and n.lineno < call.lineno for n in ast.walk(f.node))


def popped(f):
    """Options taken out of the keyword catch-all into a variable of the same name."""
    a = getattr(f.node, "args", None)
    if a is None or a.kwarg is None:
        return set()
    out = set()
    for n in walk_scope(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("pop", "get") and v.args:
                d, k = v.func.value, v.args[0]
            elif isinstance(v, ast.Subscript):
                d, k = v.value, v.slice
            else:
                continue
            if isinstance(d, ast.Name) and d.id == a.kwarg.arg and isinstance(k, ast.Constant) and k.value == n.targets[0].id:
                out.add(k.value)
    return out


def required(cands, p):
    """A required argument that is missing would be an error at once."""
    for x in cands:
        a = x.node.args
        pos = [*a.posonlyargs, *a.args]
        nd = len(a.defaults)
        names = [y.arg for y in pos[: len(pos) - nd]] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if p in names:
            return True
    return False


def recursive_state(f, cands):
    return False


def holds_entry(n, d, p):
    """The statement puts an entry p into the dict d."""
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == d:
        return not isinstance(n.slice, ast.Constant) or n.slice.value == p
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == d:
        if n.func.attr == "update":
            return any(k.arg in (p, None) for k in n.keywords) or any(
                not isinstance(x, ast.Dict) or any(k is None or not isinstance(k, ast.Constant) or k.value == p for k in x.keys) for x in n.args
            )
        if n.func.attr == "setdefault" and n.args:
            return not isinstance(n.args[0], ast.Constant) or n.args[0].value == p
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        if any(isinstance(t, ast.Name) and t.id == d for t in ts) and n.value is not None:
            return any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.value)) or any(isinstance(x, ast.Constant) and x.value == p for x in ast.walk(n.value))
    return False


def star_may_hold(f, s, p):
    """`**d`: a locally built dict that mentions the option, or the caller's own keyword catch-all."""
    if isinstance(s, ast.Name):
        a = f.node.args
        if a.kwarg is not None and a.kwarg.arg == s.id:
            return any(holds_entry(n, s.id, p) for n in ast.walk(f.node))
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Call)) and s.id in {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}:
                if any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n)) or any(isinstance(x, ast.Constant) and x.value == p for x in ast.walk(n)):
                    return True
        # a dict of unknown contents
        return not any(
            isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == s.id for t in n.targets) and isinstance(n.value, (ast.Dict,))
            for n in ast.walk(f.node)
        )
    return any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(s)) or not isinstance(s, ast.Dict)


def all_loads(repo):
    loads = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loads.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    loads.add(n.args[1].value)
    return loads


def constructor_options(repo, res):
    """Options only stored on the object must be read back somewhere."""
    loads = all_loads(repo)
    for f in repo.all_functions():
        if f.cls is None or f.name != "__init__" or f.parent is not None:
            continue
        ps = set(f.bound_params())
        for p in sorted(ps):
            stored, other = set(), False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
                    par = repo.parents.get(n)
                    if isinstance(par, (ast.Assign, ast.AnnAssign)) and par.value is n:
                        ts = par.targets if isinstance(par, ast.Assign) else [par.target]
                        for t in ts:
                            if isinstance(t, ast.Attribute):
                                stored.add(t.attr)
                            else:
                                other = True
                    else:
                        other = True
            if stored and not other:
                res.stats["constructor_options"] += 1
                if not stored & loads:
                    res.add("option-stored-never-read", f.qualname, p, f.loc(), f"constructor option '{p}' is kept as {sorted(stored)} which nothing ever reads")


def config_options(repo, res):
    loads = all_loads(repo)
    for c in repo.classes.values():
        for k, v in c.attrs.items():
            if not isinstance(v, ast.Call):
                continue
            d = repo.resolve_expr(v.func, c.module, None)
            q = getattr(d, "qualname", d if isinstance(d, str) else "")
            if not (isinstance(d, (FuncInfo, ClassInfo)) and (d.module.rel.endswith("caput/config.py") or d.name in ("file_format", "logging_config", "list_type"))):
                continue
            res.stats["config_options"] += 1
            if k not in loads and not dynamic_read(repo, k):
                res.add("config-option-never-read", c.qualname, k, f"{c.module.rel}:{v.lineno}", f"configuration option '{k}' of {c.name} is declared but nothing reads it")


def dynamic_read(repo, k):
    """Read through a computed name such as getattr(self, f"{x}_sel")."""
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.JoinedStr):
                parts = n.args[1].values
                pre = parts[0].value if isinstance(parts[0], ast.Constant) else ""
                suf = parts[-1].value if isinstance(parts[-1], ast.Constant) else ""
                if k.startswith(pre) and k.endswith(suf) and (pre or suf):
                    return True
    return False


POS = """
from caput import config
def low(x, flag=True, mode=None):
    return (x, flag, mode)
def unread(x, flag=True):
    return x
def overwritten(x, flag=True):
    flag = False
    return low(x, flag=flag)
def dropped(x, flag=True, mode=None):
    if mode:
        return low(x, flag=flag, mode=mode)
    if x:
        return low(x, mode=mode)
    return flag
def taken(x, **kw):
    mode = kw.pop("mode", None)
    if x:
        return low(x, mode=mode)
    return low(x)
def renamed(x, how=None):
    def work(y, **kw):
        return low(y, **kw)
    a = work(x, mode=how)
    if x:
        a = work(a)
    return a
def crossed(x, flag=True, mode=None):
    return low(x, flag=mode, mode=flag)
def replaced(x, flag=True):
    if flag:
        x = x + 1
    return low(x, flag=False)
def twoway(x, how=None, other=None):
    return low(x, mode=how), low(x, mode=other)
def sibling(x):
    mode = x.find()
    if x:
        return low(x, mode=mode)
    return low(x)
def rooted(comm, x, root=0):
    if comm.rank == root:
        x = x + 1
    return comm.gather(x)
def make(g, name, **kw):
    return g.create_dataset(name, **kw)
def stored(g, name, chunks=None):
    if name:
        return make(g, name, chunks=chunks)
    for n in (1, 2):
        make(g, n)
class W:
    def low(self, x, flag=True):
        return x, flag
    def method(self, x, flag=True):
        if x:
            return self.low(x, flag=flag)
        return self.low(x)
class T:
    def __init__(self, a, keep=False):
        self.a = a
        self._keep_marker = keep
    def get(self):
        return self.a
"""
NEG = """
def low(x, flag=True, mode=None):
    return (x, flag, mode)
def a(x, flag=True, **kw):
    return low(x, flag, **kw)
def b(x, flag=None):
    if flag is None:
        return low(x)
    kw = {"flag": flag}
    return low(x, **kw)
def c(x, flag=None, **kw):
    kw["flag"] = flag
    return low(x, **kw)
def d(x, flag=None):
    use = True if flag is None else flag
    opts = dict(flag=use)
    return low(x, **opts)
def e(x, flag=None):
    if flag:
        return low(x, flag=True)
    return low(x, flag=False)
def g(x, data, order="C"):
    if x and order:
        return data.copy()
def h(x, flag=None):
    if flag is not None:
        return low(x, flag=flag)
    return low(x)
class Copier:
    def copy(self, order="C"):
        return order
class Base:
    def go(self, name):
        raise NotImplementedError
class Sub(Base):
    def go(self, name):
        return 1 + 1
"""


def selftest():
    got = {f.construct.split(".")[-1] for f in run(Repo(sources={"caput/x.py": POS, "caput/config.py": ""}), "q").findings}
    neg = [f.key for f in run(Repo(sources={"caput/x.py": NEG}), "q").findings]
    return [(n, n in got) for n in ("unread", "overwritten", "dropped", "taken", "renamed", "crossed", "__init__", "replaced", "twoway", "sibling", "rooted", "stored", "method")] + [(f"negatives {neg}", not neg)]
