"""P11: nothing observable depends on the arbitrary order of sets or directory listings."""

import ast

from ..core import ClassInfo, FuncInfo, Repo, dotted, enclosing_class, walk_scope
from ..report import Result

LISTING = {"glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk", "os.fwalk"}
LIST_METHODS = {"iterdir", "rglob"}  # pathlib
SETFN = {"set", "frozenset"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
# consumers whose result does not depend on the order of their argument
INSENSITIVE = {"sorted", "min", "max", "any", "all", "len", "set", "frozenset", "bool", "isinstance", "type", "id", "Counter", "isdisjoint", "issubset", "issuperset", "union", "intersection", "difference", "symmetric_difference", "update_set", "count", "repr", "sum", "fsum", "natsorted", "isin", "in1d", "unique", "nansum", "prod"}
# consumers that keep the order of their argument
KEEPING = {"list", "tuple", "iter", "enumerate", "reversed", "zip", "map", "filter", "chain", "array", "asarray", "dict", "fromkeys", "deque", "OrderedDict", "islice", "copy", "deepcopy", "from_iterable"}
MESSAGES = {"warn", "warning", "error", "exception", "critical", "info", "debug", "print", "echo", "secho", "log"}
SET, SEQ = "set", "seq"
# Judged by hand: the loop body commutes.
COMMUTES = {
    # selections are applied along distinct axes of the array, so their order makes no difference
    "caput.containers._util.copy_datasets_filter": "a loop runs in arbitrary order",
}


def join(*ks):
    ks = [k for k in ks if k is not None]
    if SEQ in ks:
        return SEQ
    return SET if SET in ks else None


class Fn:
    """One pass over a function body: which names hold unordered sets or arbitrarily ordered sequences."""

    def __init__(self, R, f, module, node):
        self.R, self.f, self.m, self.node = R, f, module, node
        self.env = {}
        self.ret = None
        self.found = []
        self.quiet = 0  # inside a message or an error

    def report(self, n, what):
        if not self.quiet:
            self.found.append((n, what))

    # -- expressions -----------------------------------------------------------------------
    def kind(self, e):
        """Evaluate an expression, recording misuse inside it; returns SET, SEQ or None."""
        if e is None:
            return None
        m = getattr(self, "k_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = [self.kind(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.keyword))]
        return None

    def k_keyword(self, e):
        return self.kind(e.value)

    def k_Name(self, e):
        return self.env.get(e.id)

    def k_Attribute(self, e):
        self.kind(e.value)
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and self.f is not None:
            return self.R.attr_kind(self.f, e.attr)
        return None

    def k_Constant(self, e):
        return None

    def k_Lambda(self, e):
        return None

    def k_Set(self, e):
        for x in e.elts:
            self.kind(x)
        return SET if len(e.elts) > 1 or any(isinstance(x, ast.Starred) for x in e.elts) else None

    def k_SetComp(self, e):
        self.comp(e)
        return SET

    def comp(self, e):
        saved = dict(self.env)
        ks = []
        for g in e.generators:
            ks.append(self.kind(g.iter))
            self.assign(g.target, None)
            for i in g.ifs:
                self.kind(i)
        if isinstance(e, ast.DictComp):
            self.kind(e.key)
            self.kind(e.value)
        else:
            self.kind(e.elt)
        self.env = saved
        return join(*ks)

    def k_ListComp(self, e):
        return SEQ if self.comp(e) else None

    k_GeneratorExp = k_ListComp

    def k_DictComp(self, e):
        return SEQ if self.comp(e) else None

    def k_Starred(self, e):
        return SEQ if self.kind(e.value) else None

    def k_List(self, e):
        ks = [self.kind(x) for x in e.elts]
        return SEQ if any(k for k, x in zip(ks, e.elts) if isinstance(x, ast.Starred)) else None

    k_Tuple = k_List

    def k_Dict(self, e):
        ks = [self.kind(x) for x in e.values]
        for k in e.keys:
            if k is not None:
                self.kind(k)
        return SEQ if any(k == SEQ and key is None for k, key in zip(ks, e.keys)) else None

    def k_IfExp(self, e):
        self.kind(e.test)
        return join(self.kind(e.body), self.kind(e.orelse))

    def k_BoolOp(self, e):
        return join(*[self.kind(v) for v in e.values])

    def k_NamedExpr(self, e):
        k = self.kind(e.value)
        self.assign(e.target, k)
        return k

    def k_Compare(self, e):
        for x in [e.left, *e.comparators]:
            self.kind(x)
        return None

    def k_BinOp(self, e):
        a, b = self.kind(e.left), self.kind(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            views = [x for x in (e.left, e.right) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args]
            if SET in (a, b) or views:
                return SET
            return None
        if isinstance(e.op, (ast.Add, ast.Mult)):
            return SEQ if SEQ in (a, b) else None
        return None

    def k_Subscript(self, e):
        k = self.kind(e.value)
        self.kind(e.slice)
        if k == SEQ:
            if isinstance(e.slice, ast.Slice):
                return SEQ
            if isinstance(e.ctx, ast.Load) and not isinstance(e.slice, ast.Constant) is False and isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
                self.report(e, "an element is picked by its position")
        return None

    def k_JoinedStr(self, e):
        self.quiet += 1
        for v in e.values:
            self.kind(v)
        self.quiet -= 1
        return None

    def k_FormattedValue(self, e):
        self.kind(e.value)
        return None

    def k_Await(self, e):
        return self.kind(e.value)

    def k_Yield(self, e):
        k = self.kind(e.value)
        if k == SEQ:
            self.ret = join(self.ret, SEQ)
        return None

    def k_YieldFrom(self, e):
        if self.kind(e.value):
            self.ret = join(self.ret, SEQ)
        return None

    def k_Call(self, e):
        d = dotted(e.func) or ""
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        r = self.R.repo.resolve_expr(e.func, self.m, self.f)
        full = r if isinstance(r, str) else d
        msg = name in MESSAGES and not isinstance(r, FuncInfo)
        self.quiet += msg
        recv = self.kind(e.func.value) if isinstance(e.func, ast.Attribute) else None
        args = [self.kind(a) for a in e.args]
        kws = {k.arg: self.kind(k.value) for k in e.keywords}
        self.quiet -= msg
        if msg:
            return None
        if full in LISTING:
            return SEQ
        if name in LIST_METHODS or (name == "glob" and isinstance(e.func, ast.Attribute) and full not in LISTING and not isinstance(r, FuncInfo)):
            return SEQ
        if isinstance(e.func, ast.Name) and name in SETFN and not isinstance(r, (FuncInfo, ClassInfo)):
            return SET if e.args else SET
        if isinstance(e.func, ast.Name) and name == "hash" and r == "hash" and not (self.f is not None and self.f.name == "__hash__"):
            self.report(e, "hash() differs between processes and runs")
            return None
        allk = [*args, *kws.values()]
        g = self.R.callee(self.f, self.m, e)
        if recv == SET:
            if name in SET_METHODS or name == "copy":
                return SET
            if name == "pop":
                self.report(e, "an arbitrary element is taken out of a set")
                return None
            return None
        if recv == SEQ:
            if name == "sort" and isinstance(e.func.value, ast.Name):
                self.env[e.func.value.id] = None
                return None
            if name in ("copy", "items", "keys", "values"):
                return SEQ
            if name in ("pop", "index", "popitem"):
                self.report(e, "an element is picked by its position")
                return None
            if name in ("count", "append", "extend", "insert", "remove", "add", "update", "get", "clear", "setdefault"):
                return None
        if name in ("extend", "update", "extendleft", "append", "put", "add", "insert", "appendleft") and isinstance(e.func, ast.Attribute):
            if any(allk) and recv != SET:
                t = e.func.value
                ordered = name in ("extend", "extendleft") or any(k == SEQ for k in allk)
                if name in ("update", "add") and self.is_setlike(t):
                    return None
                if ordered:
                    if isinstance(t, ast.Name) and name in ("extend", "extendleft", "update"):
                        self.env[t.id] = SEQ
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        self.report(e, "an arbitrary order is stored on the object")
            return None
        if name in INSENSITIVE or full in ("np.unique", "numpy.unique", "np.sort", "numpy.sort", "np.sum", "numpy.sum"):
            return None
        if name == "join" and isinstance(e.func, ast.Attribute) and any(allk):
            self.report(e, "a text is put together in arbitrary order")
            return None
        if name in KEEPING and not isinstance(g, FuncInfo):
            return SEQ if any(allk) else None
        if isinstance(g, FuncInfo):
            ps = g.bound_params()
            for i, k in enumerate(args):
                if k == SEQ and i < len(ps) and not isinstance(e.args[i], ast.Starred) and self.R.param_ordered(g, ps[i]):
                    self.report(e, f"an arbitrarily ordered sequence is handed to {g.name}")
            for p, k in kws.items():
                if k == SEQ and p in ps and self.R.param_ordered(g, p):
                    self.report(e, f"an arbitrarily ordered sequence is handed to {g.name}")
            return self.R.returns(g)
        if any(k == SEQ for k in allk):
            self.report(e, f"an arbitrarily ordered sequence is handed to {name or 'a call'}")
        elif any(isinstance(a, ast.Starred) and k for a, k in zip(e.args, args)):
            self.report(e, "arguments are passed in arbitrary order")
        return None

    def is_setlike(self, t):
        return self.kind(t) == SET

    # -- statements ------------------------------------------------------------------------
    def assign(self, t, k):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            if k:
                self.report(t, "elements are assigned by their position")
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, None)
        elif isinstance(t, ast.Attribute):
            self.kind(t.value)
            if k == SEQ:
                self.report(t, "an arbitrary order is stored on an object")
        elif isinstance(t, ast.Subscript):
            self.kind(t.value)
            self.kind(t.slice)
            if k == SEQ:
                self.report(t, "an arbitrary order is stored in a container")

    def block(self, stmts):
        for st in stmts:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            return
        if isinstance(st, ast.Raise):
            self.quiet += 1
            self.kind(st.exc)
            self.kind(st.cause)
            self.quiet -= 1
        elif isinstance(st, ast.Assert):
            self.kind(st.test)
        elif isinstance(st, ast.Assign):
            k = self.kind(st.value)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for x, v in zip(t.elts, st.value.elts):
                        self.assign(x, self.kind(v))
                else:
                    self.assign(t, k)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.kind(st.value))
        elif isinstance(st, ast.AugAssign):
            k = self.kind(st.value)
            if isinstance(st.target, ast.Name):
                old = self.env.get(st.target.id)
                if old == SET or isinstance(st.op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
                    self.env[st.target.id] = SET if (old == SET or k == SET) else old
                elif k and isinstance(st.op, ast.Add):
                    self.env[st.target.id] = SEQ
            elif k and isinstance(st.op, ast.Add):
                self.report(st, "an arbitrary order is stored on an object")
        elif isinstance(st, ast.Return):
            self.ret = join(self.ret, self.kind(st.value))
        elif isinstance(st, ast.Expr):
            self.kind(st.value)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                self.kind(t)
        elif isinstance(st, ast.If):
            self.kind(st.test)
            self.branches([st.body, st.orelse])
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            k = self.kind(st.iter)
            if k and not self.insensitive(st):
                self.report(st, "a loop runs in arbitrary order")
            for _ in range(2):
                self.assign(st.target, None)
                before = dict(self.env)
                self.block(st.body)
                self.merge(before)
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for _ in range(2):
                before = dict(self.env)
                self.kind(st.test)
                self.block(st.body)
                self.merge(before)
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                k = self.kind(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, k)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            before = dict(self.env)
            self.block(st.body)
            after = dict(self.env)
            for h in st.handlers:
                self.env = {n: join(before.get(n), after.get(n)) for n in {*before, *after}}
                self.block(h.body)
            self.merge(after)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Match):
            self.kind(st.subject)
            self.branches([c.body for c in st.cases] + [[]])

    def branches(self, blocks):
        before = dict(self.env)
        outs = []
        for b in blocks:
            self.env = dict(before)
            self.block(b)
            if not self.ends(b):
                outs.append(self.env)
        self.env = {n: join(*[o.get(n) for o in outs]) for o in outs for n in o} if outs else before

    @staticmethod
    def ends(b):
        return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def merge(self, other):
        self.env = {n: join(self.env.get(n), other.get(n)) for n in {*self.env, *other}}

    def insensitive(self, loop):
        """The order of iterations can not be seen: only set additions, checks that raise, and order-free accumulation."""
        var = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

        def ok(st):
            if isinstance(st, (ast.Pass, ast.Continue, ast.Raise, ast.Assert)):
                return True
            if isinstance(st, ast.If):
                return all(map(ok, st.body)) and all(map(ok, st.orelse))
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
                a = st.value.func.attr
                if a in ("add", "discard") or a in MESSAGES:
                    return True
                if a == "pop" and st.value.args:
                    return True
                if a in ("remove", "unlink", "rmtree") and isinstance(st.value.func, ast.Attribute):
                    return True
                return False
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name):
                return st.value.func.id in MESSAGES
            if isinstance(st, ast.Delete):
                return True
            if isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Mult)) and isinstance(st.value, (ast.Constant,)):
                return True
            if isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.BitOr, ast.BitAnd)):
                return True
            # overwriting an entry that exists already, or a plain flag
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and all(isinstance(t, ast.Name) for t in st.targets):
                return True
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and not self.used_after(loop, st.targets[0].id):
                return True
            if isinstance(st, ast.Return) and isinstance(st.value, ast.Constant):
                return True
            if isinstance(st, ast.Break):
                return False
            if isinstance(st, (ast.For,)):
                return all(map(ok, st.body))
            return False

        return all(map(ok, loop.body))

    def used_after(self, loop, name):
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.node))


class Rule:
    def __init__(self, repo):
        self.repo = repo
        self.ret = {}
        self.attrs = {}
        self.po = {}

    def callee(self, f, module, call):
        g = self.repo.resolve_expr(call.func, module, f)
        if isinstance(g, ClassInfo):
            g = g.lookup("__init__")
        if isinstance(g, FuncInfo):
            return g
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls") and f is not None:
            c = enclosing_class(f)
            r = c.lookup(call.func.attr) if c else None
            return r if isinstance(r, FuncInfo) else None
        return None

    def analyse(self, f):
        a = Fn(self, f, f.module, f.node)
        if f.parent is not None:
            # variables of the enclosing function that hold unordered values on every use
            pass
        a.block(f.node.body)
        return a

    def returns(self, f):
        if f not in self.ret:
            self.ret[f] = None
            if not f.is_property and f.name != "__init__":
                a = self.analyse(f)
                self.ret[f] = a.ret
        return self.ret[f]

    def param_ordered(self, f, p):
        """Does the callee let the order of this argument matter?"""
        key = (f, p)
        if key not in self.po:
            self.po[key] = False
            a = Fn(self, f, f.module, f.node)
            a.env[p] = SEQ
            a.block(f.node.body)
            base = Fn(self, f, f.module, f.node)
            base.block(f.node.body)
            self.po[key] = len(a.found) > len(base.found) or (a.ret == SEQ and base.ret != SEQ)
        return self.po[key]

    def attr_kind(self, f, name):
        c = enclosing_class(f)
        if c is None:
            return None
        p = c.lookup(name)
        if isinstance(p, FuncInfo) and p.is_property:
            if p not in self.ret:
                self.ret[p] = None
                self.ret[p] = self.analyse(p).ret
            return self.ret[p]
        key = (c, name)
        if key not in self.attrs:
            self.attrs[key] = None
            for b in c.mro():
                if not isinstance(b, ClassInfo):
                    continue
                v = b.attrs.get(name)
                if isinstance(v, ast.AST):
                    self.attrs[key] = join(self.attrs[key], Fn(self, None, b.module, b.node).kind(v))
                for g in b.methods.values():
                    for n in walk_scope(g.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
                            k = Fn(self, None, g.module, g.node).kind(n.value)
                            self.attrs[key] = join(self.attrs[key], k if k == SET else None)
        return self.attrs[key]


def public(f):
    g = f
    while g is not None:
        if g.parent is not None or (g.name.startswith("_") and not g.name.startswith("__")):
            return False
        g = g.parent
    return True


def run(repo, tier="quick"):
    res = Result(stats={"functions": 0, "unordered_sources": 0, "module_bodies": 0})
    R = Rule(repo)
    for m in repo.modules.values():
        if m.rel.endswith(".pyi"):
            continue
        res.stats["module_bodies"] += 1
        a = Fn(R, None, m, m.tree)
        a.block(m.tree.body)
        for n, what in a.found:
            res.add("arbitrary-order", m.name, f"module:{what}", f"{m.rel}:{n.lineno}", f"{what} (a set or directory listing that was not sorted)")
    for f in repo.all_functions():
        if f.module.rel.endswith(".pyi"):
            continue
        res.stats["functions"] += 1
        for n in walk_scope(f.node):
            if isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and ((dotted(n.func) or "") in LISTING | SETFN):
                res.stats["unordered_sources"] += 1
        a = R.analyse(f)
        for n, what in a.found:
            if COMMUTES.get(f.qualname) == what:
                continue
            res.add("arbitrary-order", f.qualname, what, f.loc(n), f"in {f.short()} {what} (a set or directory listing that was not sorted)")
        if a.ret == SEQ and public(f):
            res.add("arbitrary-order", f.qualname, "returned", f.loc(), f"{f.short()} returns a sequence in arbitrary order (a set or directory listing that was not sorted)")
    res.floors = {"functions": 350, "unordered_sources": 15, "module_bodies": 25}
    res.explanation = (
        "Forward analysis of every function: values holding sets or directory/wildcard listings are tracked through assignments, comprehensions, calls and attributes; "
        "using them in a way that exposes their order (sequence, dictionary, loop with ordered effects, positional pick, return, argument whose order matters) without sorting is reported. "
        "Order-free uses (membership, sorted, min/max, set algebra, error messages) are accepted."
    )
    res.assumptions = ["dictionaries keep insertion order", "listing the members of an HDF5 or Zarr group is deterministic"]
    return res


POS = """
import glob, os
def a(p):
    return glob.glob(p)
def b(x):
    for k in set(x):
        x.go(k)
def c(x):
    s = {1, 2} | set(x)
    return [q for q in s]
def d(self, p):
    fl = []
    for f in p:
        fl += glob.glob(f)
    self.files = fl
def _h(p):
    return os.listdir(p)
def e(p):
    return {k: 1 for k in _h(p)}
def g(x, y):
    return dict.fromkeys(set(x), y)
def h(x):
    return set(x).pop()
def i(x):
    return hash(x)
class K:
    _names = {"a", "b"}
    def k(self):
        return tuple(self._names)
"""
NEG = """
import glob, os
def a(p):
    fl = glob.glob(p)
    fl.sort()
    return fl
def b(x):
    for k in sorted(set(x)):
        x.go(k)
def c(x):
    if set(x) - {1, 2}:
        raise ValueError(", ".join(set(x)))
    return len(set(x))
def _h(p):
    return os.listdir(p)
def d(p):
    return sorted(_h(p))
def e(x):
    seen = set()
    out = []
    for y in x:
        if y not in seen:
            seen.add(y)
            out.append(y)
    return out
def f(x, y):
    if type(x) in {int, float}:
        return set(x)
    return all(z in y for z in set(x))
class K:
    _names = {"a", "b"}
    def k(self, n):
        return n in self._names
    def s(self):
        return tuple(sorted(self._names))
"""


def selftest():
    got = {f.construct.split(".")[-1] for f in run(Repo(sources={"caput/x.py": POS})).findings}
    neg = [f.key for f in run(Repo(sources={"caput/x.py": NEG})).findings]
    return [(n, n in got) for n in "abcdeghik"] + [(f"negatives {neg}", not neg)]
