"""P18: every call between library routines supplies exactly what the callee accepts, and the stubs agree."""

import ast
import os
import re

from ..core import ClassInfo, FuncInfo, Repo, dotted
from ..flow import Budget, Client, Engine
from ..report import Result

KEEP_SIG = {
    "staticmethod", "classmethod", "property", "contextmanager", "contextlib.contextmanager", "overload", "typing.overload",
    "abstractmethod", "abc.abstractmethod", "cache", "functools.cache", "functools.lru_cache", "lru_cache", "cached_property",
    "functools.cached_property", "override", "typing.override",
}


class Sig:
    """Parameters of a callee as seen by the caller."""

    def __init__(self, pos, npos_required, posonly, kwonly, kw_required, vararg, kwarg):
        self.pos, self.npos_required, self.posonly = pos, npos_required, posonly
        self.kwonly, self.kw_required, self.vararg, self.kwarg = kwonly, kw_required, vararg, kwarg

    @classmethod
    def of(cls, args, drop=0):
        pos = [x.arg for x in args.posonlyargs + args.args]
        req = len(pos) - len(args.defaults)
        kwreq = [x.arg for x, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
        return cls(
            pos[drop:], max(0, req - drop), max(0, len(args.posonlyargs) - drop), [x.arg for x in args.kwonlyargs], kwreq,
            args.vararg is not None, args.kwarg is not None,
        )

    def problem(self, call, npos=None, extra_kw=None):
        """Why this call cannot bind, or None.  `npos`/`extra_kw`: positional count and keywords as evaluated."""
        star = any(isinstance(a, ast.Starred) for a in call.args)
        n = len([a for a in call.args if not isinstance(a, ast.Starred)])
        dstar = any(k.arg is None for k in call.keywords)
        kws = [k.arg for k in call.keywords if k.arg is not None]
        return self.unbound(n, kws, star, dstar)

    def unbound(self, n, kws, star=False, dstar=False):
        if len(set(kws)) < len(kws):
            return f"passes '{next(k for k in kws if kws.count(k) > 1)}' twice"
        if n > len(self.pos) and not self.vararg:
            return f"passes {n} positional arguments where at most {len(self.pos)} are accepted"
        for k in kws:
            if k in self.pos[self.posonly :]:
                i = self.pos.index(k)
                if i < n and not star:
                    return f"passes '{k}' both by position and by name"
            elif k not in self.kwonly and not self.kwarg:
                return f"passes the unknown argument '{k}'"
        if not star and not dstar:
            for i, p in enumerate(self.pos[: self.npos_required]):
                if i >= n and p not in kws:
                    return f"does not pass the required argument '{p}'"
        if not dstar:
            for p in self.kw_required:
                if p not in kws:
                    return f"does not pass the required argument '{p}'"
        return None


def plain(f):
    return all(d in KEEP_SIG or d.split("(")[0] in KEEP_SIG for d in f.decorators) and len(f.decorators) == len(getattr(f.node, "decorator_list", []))


def sig_of(f, bound):
    drop = 1 if bound and not f.is_static else 0
    return Sig.of(f.node.args, drop)


def inspected(repo, cls):
    """Methods whose signature the class examines at run time before calling them."""
    if cls is None:
        return set()
    if not hasattr(cls, "_inspected"):
        out = set()
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("getfullargspec", "signature", "getargspec"):
                    out |= {a.attr for a in n.args if isinstance(a, ast.Attribute)}
        cls._inspected = out
    return cls._inspected


def forwards(repo, g):
    """Calls in which a routine always hands on all its surplus arguments unchanged: (call, routine, bound)."""
    if hasattr(g, "_forwards"):
        return g._forwards
    out = g._forwards = []
    a = g.node.args
    va, ka = a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg
    # used in any other way, or changed: which arguments arrive is not known
    stars = set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call):
            stars |= {id(x.value) for x in n.args if isinstance(x, ast.Starred)} | {id(k.value) for k in n.keywords if k.arg is None}
    for n in ast.walk(g.node):
        if isinstance(n, ast.Name) and n.id in (va, ka) and id(n) not in stars:
            return out

    def always(body):
        """Calls made whenever the routine runs to its end (loop bodies: whenever they are entered)."""
        for st in body:
            if isinstance(st, (ast.For, ast.AsyncFor)):
                yield st.iter
                yield from always(st.body)
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                yield from [i.context_expr for i in st.items]
                yield from always(st.body)
            elif isinstance(st, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return, ast.AugAssign)):
                if st.value is not None:
                    yield st.value
                if isinstance(st, ast.Return):
                    return
            elif isinstance(st, (ast.If, ast.Try, ast.While, ast.Raise)):
                if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(st)):
                    return

    for e in always(g.node.body):
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            e = e.value
        if not isinstance(e, ast.Call):
            continue
        sv = [x for x in e.args if isinstance(x, ast.Starred)]
        sk = [k for k in e.keywords if k.arg is None]
        if len(sv) > 1 or len(sk) > 1 or not (sv or sk):
            continue
        if sv and not (isinstance(sv[0].value, ast.Name) and sv[0].value.id == va) or sk and not (isinstance(sk[0].value, ast.Name) and sk[0].value.id == ka):
            continue
        h, bound = None, False
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and g.cls is not None and g.params() and e.func.value.id == g.params()[0] and not g.is_static:
            h, bound = g.cls.lookup(e.func.attr), True
            if h is not None and any(s.lookup(e.func.attr) is not h for s in g.cls.all_subclasses()):
                h = None
        else:
            h = repo.resolve_expr(e.func, g.module, g)
            if isinstance(h, FuncInfo) and h.cls is not None:
                h = None
        if isinstance(h, FuncInfo) and plain(h) and not h.is_property:
            out.append((e, h, bound))
    return out


class Calls(Client):
    max_states = 8

    def __init__(self, repo, res, seen):
        self.repo, self.res, self.seen = repo, res, seen
        self.checked = 0

    def initial(self, f):
        return None

    def inline(self, eng, callee, depth):
        return False

    def on_call(self, eng, st, node, fn, args, kws, callee):
        if not isinstance(node, ast.Call) or callee is None or (id(node), id(callee)) in self.seen:
            return None
        if fn.k in ("lambda", "closure") and not isinstance(callee, FuncInfo):
            return None
        # functools.partial is evaluated with other arguments than the node shows
        if fn.k == "call":
            return None
        self.seen.add((id(node), id(callee)))
        d = dotted(node.func)
        if d and d.split(".")[-1] in ("partial", "map", "filter"):
            return None
        f = eng.func
        if isinstance(callee, ClassInfo):
            self.check_ctor(f, node, callee)
            return None
        if not isinstance(callee, FuncInfo) or not plain(callee) or callee.is_property:
            return None
        if fn.k in ("closure", "lambda") and (not isinstance(node.func, ast.Name) or node.func.id in f.all_params()):
            # a default for a routine the caller may supply: which one it is decides how it is called
            return None
        if fn.k == "bound" and callee.name in inspected(self.repo, f.cls):
            return None
        targets = {callee}
        if fn.k == "bound":
            recv = node.func.value if isinstance(node.func, ast.Attribute) else None
            is_self = isinstance(recv, ast.Name) and f.cls is not None and f.parent is None and f.params() and recv.id == f.params()[0] and not f.is_static
            if is_self and callee.cls is not None and not callee.name.startswith("__"):
                for s in f.cls.all_subclasses():
                    g = s.lookup(callee.name)
                    if g is not None and plain(g) and not g.is_property:
                        targets.add(g)
            bound = True
        elif fn.k == "unbound_method":
            bound = callee.is_classmethod
        else:
            bound = False
        for g in targets:
            self.checked += 1
            p = sig_of(g, bound).problem(node)
            if p:
                self.res.add("bad-call", f.qualname, g.qualname, f.loc(node), f"call of {g.qualname} {p}")
            else:
                self.forwarded(f, node, g, bound)
        return None

    def forwarded(self, f, node, g, bound, n=None, kws=None, depth=0):
        """What a routine hands on of its own surplus arguments has to fit where it goes."""
        if depth > 3 or any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            return
        if n is None:
            n, kws = len(node.args), [k.arg for k in node.keywords]
        a = g.node.args
        if a.vararg is None and a.kwarg is None:
            return
        sig = sig_of(g, bound)
        more = max(0, n - len(sig.pos))
        rest = [k for k in kws if k not in sig.pos[sig.posonly :] and k not in sig.kwonly]
        for call, h, hb in forwards(self.repo, g):
            m = len([x for x in call.args if not isinstance(x, ast.Starred)]) + more
            k2 = [k.arg for k in call.keywords if k.arg is not None] + rest
            if (more and not any(isinstance(x, ast.Starred) for x in call.args)) or (rest and not any(k.arg is None for k in call.keywords)):
                continue
            self.checked += 1
            p = sig_of(h, hb).unbound(m, k2)
            if p:
                self.res.add("bad-call", f.qualname, h.qualname, f.loc(node), f"call of {g.qualname} is handed on to {h.qualname}, which then {p.replace('passes', 'is passed').replace('does not pass', 'is not passed')}")

    def check_ctor(self, f, node, cls):
        init = None
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                if str(c).split("[")[0] in ("object", "Generic", "typing.Generic", "ABC", "abc.ABC"):
                    continue
                return
            if any(k.arg == "metaclass" for k in c.node.keywords) or c.node.decorator_list:
                return
            if "__new__" in c.methods:
                init = c.methods["__new__"]
                break
            if "__init__" in c.methods:
                init = c.methods["__init__"]
                break
        self.checked += 1
        if init is None:
            if (node.args or node.keywords) and not any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords):
                self.res.add("bad-call", f.qualname, cls.qualname, f.loc(node), f"constructor of {cls.name} takes no arguments")
            return
        if not plain(init):
            return
        a = init.node.args
        p = Sig.of(a, 1).problem(node)
        if p:
            self.res.add("bad-call", f.qualname, cls.qualname, f.loc(node), f"constructor of {cls.name} {p}")


# -- stubs -----------------------------------------------------------------------------------------


def stub_files(repo):
    if repo.sources is not None:
        for rel, src in repo.sources.items():
            if rel.endswith(".pyi"):
                yield rel, src
        return
    base = os.path.join(repo.root, repo.pkg)
    for dp, dn, fn in os.walk(base):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(".pyi"):
                p = os.path.join(dp, f)
                with open(p, encoding="utf8") as fh:
                    yield os.path.relpath(p, repo.root), fh.read()


def pyx_sigs(src):
    """name -> [(param, has_default)] of the Python-visible functions of a Cython source."""
    out = {}
    for m in re.finditer(r"^(?:def|cpdef)\s+([^(\n]*?)(\w+)\s*\(", src, re.M):
        i, depth = m.end(), 1
        while i < len(src) and depth:
            depth += src[i] in "([{"
            depth -= src[i] in ")]}"
            i += 1
        body = re.sub(r"#.*", "", src[m.end() : i - 1])
        parts, cur, depth = [], "", 0
        for ch in body:
            if ch == "," and not depth:
                parts.append(cur)
                cur = ""
                continue
            depth += ch in "([{"
            depth -= ch in ")]}"
            cur += ch
        parts.append(cur)
        ps = []
        for p in parts:
            p = p.strip()
            if not p:
                continue
            head, eq, _d = p.partition("=")
            names = re.findall(r"\w+", re.sub(r"\[[^]]*\]", " ", head).split(":")[0])
            if names:
                ps.append((names[-1], bool(eq)))
        out[m.group(2)] = ps
    return out


def shape(args):
    pos = [x.arg for x in args.posonlyargs + args.args]
    nd = len(args.defaults)
    req = pos[: len(pos) - nd] if nd else pos
    return (
        [(p, p not in req) for p in pos],
        sorted((x.arg, d is not None) for x, d in zip(args.kwonlyargs, args.kw_defaults)),
        args.vararg is not None,
        args.kwarg is not None,
    )


def kind(node):
    ds = {dotted(d) or "" for d in node.decorator_list}
    last = {d.split(".")[-1] for d in ds}
    if "staticmethod" in last:
        return "static"
    if "classmethod" in last:
        return "class"
    if last & {"property", "cached_property"} or any(d.endswith((".setter", ".deleter")) for d in ds):
        return "property"
    return "plain"


def stub_defs(tree):
    """qualified name -> list of nodes."""
    out = {}

    def rec(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.setdefault(pre + n.name, []).append(n)
            elif isinstance(n, ast.ClassDef):
                rec(n.body, pre + n.name + ".")
            elif isinstance(n, ast.If):
                rec(n.body, pre)
                rec(n.orelse, pre)

    rec(tree.body, "")
    return out


def compare(stub, real):
    """Difference between a stub and the implementation that a caller can notice."""
    sp, sk, sv, skw = shape(stub.args)
    rp, rk, rv, rkw = shape(real.args)
    if kind(stub) != kind(real) and "property" in (kind(stub), kind(real)):
        return f"is a {kind(real)} routine but described as {kind(stub)}"
    if kind(stub) != kind(real):
        return f"is a {kind(real)} routine but described as {kind(stub)}"
    if rv and rkw and len(rp) <= 1:
        return None  # generic forwarder
    sn, rn = [p for p, _ in sp], [p for p, _ in rp]
    if sn != rn and not (sv or rv):
        return f"accepts {rn} but is described as accepting {sn}"
    for (p, d1), (q, d2) in zip(sp, rp):
        if p == q and d1 and not d2:
            return f"requires '{p}', which is described as optional"
        if p == q and d2 and not d1:
            return f"has a default for '{p}', which is described as required"
    if [k for k, _ in sk] != [k for k, _ in rk] and not (skw or rkw):
        return f"accepts keywords {[k for k, _ in rk]} but is described as accepting {[k for k, _ in sk]}"
    return None


def _bound(repo, m, q):
    """Is the dotted name bound in the module in some other way than by a def?"""
    head, *rest = q.split(".")
    if head not in m.funcs and head not in m.classes and head not in m.imports and head not in m.globals and not m.imports.get("*"):
        return False
    c = m.classes.get(head)
    for i, part in enumerate(rest):
        if c is None:
            return True
        if i == len(rest) - 1:
            for k in c.mro():
                if not isinstance(k, ClassInfo):
                    if k != "object":
                        return True
                    continue
                if part in k.methods or part in k.setters or part in k.attrs:
                    return True
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and n.attr == part and isinstance(n.ctx, ast.Store):
                        return True
            return any(c.lookup(x) for x in ("__getattr__", "__getattribute__"))
        c = None
    return True


def check_stubs(repo, res):
    n = 0
    for rel, src in stub_files(repo):
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            res.add("stub-broken", rel, "syntax", f"{rel}:{e.lineno}", "the stub does not parse")
            continue
        mod = rel[:-4].replace(os.sep, ".")
        if mod.endswith(".__init__"):
            mod = mod[: -len(".__init__")]
        m = repo.modules.get(mod)
        stubs = stub_defs(tree)
        if m is not None:
            impl = stub_defs(m.tree)
            for q, ss in stubs.items():
                if q not in impl and not _bound(repo, m, q):
                    n += 1
                    res.add("stub-disagrees", f"{mod}.{q}", "missing", f"{rel}:{ss[0].lineno}", "is described but does not exist")
                    continue
                if q not in impl or len(ss) > 1:
                    continue
                real = [r for r in impl[q] if not any((dotted(d) or "").split(".")[-1] == "overload" for d in r.decorator_list)]
                if len(real) != 1 or real[0].decorator_list and any(
                    (dotted(d) or "").split(".")[-1] not in ("staticmethod", "classmethod", "property", "abstractmethod", "cached_property", "contextmanager") for d in real[0].decorator_list
                ):
                    continue
                n += 1
                p = compare(ss[0], real[0])
                if p:
                    res.add("stub-disagrees", f"{mod}.{q}", "signature", f"{rel}:{ss[0].lineno}", p)
        else:
            px = os.path.join(repo.root, rel[:-1] + "x")
            if repo.sources is None and os.path.exists(px):
                sigs = pyx_sigs(open(px, encoding="utf8").read())
                for q, ss in stubs.items():
                    if "." not in q and not re.search(rf"\b{re.escape(q)}\b", open(px, encoding="utf8").read()):
                        n += 1
                        res.add("stub-disagrees", f"{mod}.{q}", "missing", f"{rel}:{ss[0].lineno}", "is described but does not exist")
                        continue
                    if q in sigs and len(ss) == 1:
                        n += 1
                        sp = shape(ss[0].args)[0]
                        opt = [(p, d) for (p, d), (q2, d2) in zip(sp, sigs[q]) if p == q2 and d != d2]
                        for p, d in opt:
                            res.add("stub-disagrees", f"{mod}.{q}", f"default {p}", f"{rel}:{ss[0].lineno}", f"'{p}' is described as {'optional' if d else 'required'}, which it is not")
                        if [p for p, _ in sp] != [p for p, _ in sigs[q]]:
                            res.add("stub-disagrees", f"{mod}.{q}", "signature", f"{rel}:{ss[0].lineno}", f"accepts {[p for p, _ in sigs[q]]} but is described as accepting {[p for p, _ in sp]}")
    return n


def run(repo: Repo, tier="quick"):
    res = Result()
    seen = set()
    checked = budget = funcs = 0
    for f in repo.all_functions():
        if f.is_overload:
            continue
        funcs += 1
        c = Calls(repo, res, seen)
        try:
            Engine(repo, c).run(f)
        except Budget:
            budget += 1
        checked += c.checked
    checked += check_pyx_calls(repo, res)
    stubs = check_stubs(repo, res)
    res.stats = {"functions": funcs, "resolved_calls": checked, "stub_signatures": stubs, "budget_exceeded": budget}
    res.floors = {"functions": 300, "resolved_calls": 400, "stub_signatures": 100}
    res.explanation = (
        "Every call whose callee resolves to a routine or constructor of the package (names, module attributes, methods of self, of known classes and of local "
        "objects, super()) is bound against the callee's signature, including every override the receiver may have; every stub signature is compared with its implementation."
    )
    res.assumptions = ["a call with *args or **kwargs is only judged by what it passes explicitly, or, where a routine hands on its own surplus arguments, by what its callers pass", "callees of unknown objects are not resolved"]
    return res


def check_pyx_calls(repo, res):
    """Calls from Python modules into compiled ones."""
    if repo.sources is not None:
        return 0
    sigs = {}
    base = os.path.join(repo.root, repo.pkg)
    for dp, _dn, fn in os.walk(base):
        for f in fn:
            if f.endswith(".pyx"):
                mod = os.path.relpath(os.path.join(dp, f), repo.root)[:-4].replace(os.sep, ".")
                with open(os.path.join(dp, f), encoding="utf8") as fh:
                    sigs[mod] = pyx_sigs(fh.read())
    n = 0
    for f in repo.all_functions():
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            r = repo.resolve_expr(c.func, f.module, f)
            if not isinstance(r, str) or "." not in r:
                continue
            mod, name = r.rsplit(".", 1)
            if mod in sigs and name in sigs[mod]:
                ps = sigs[mod][name]
                n += 1
                s = Sig([p for p, _ in ps], len([1 for _, d in ps if not d]), 0, [], [], False, False)
                p = s.problem(c)
                if p:
                    res.add("bad-call", f.qualname, r, f.loc(c), f"call of {r} {p}")
    return n


BAD = {
    "caput/__init__.py": "",
    "caput/a.py": """
from . import b
class K:
    def __init__(self, x):
        self.x = x
    def m(self, a, b=1):
        return self.n(a, c=b)
    def n(self, a, b):
        return 1
    @staticmethod
    def s(q):
        return q
def f():
    k = K()
    k.m(1, 2, 3)
    b.g(z=1)
    K.s()
""",
    "caput/b.py": "def g(y=1):\n    return y\n",
    "caput/b.pyi": "def g(z=1): ...\n",
}
GOOD = {
    "caput/__init__.py": "",
    "caput/a.py": """
from . import b
class K:
    def __init__(self, x, *args, **kw):
        self.x = x
    def m(self, a, b=1):
        return self.n(a, b=b)
    def n(self, a, b):
        return 1
    @classmethod
    def c(cls, q):
        return cls(q, 2, z=3)
def f(*args, **kw):
    k = K(1)
    k.m(*args)
    b.g(**kw)
    K.c(4)
""",
    "caput/b.py": "def g(y=1):\n    return y\n",
    "caput/b.pyi": "def g(y: int = ...) -> int: ...\n",
}


def _stub_repo(src):
    return Repo(sources={k: v for k, v in src.items() if k.endswith(".py")}), src


FWD = {
    "caput/__init__.py": "",
    "caput/a.py": "def g(x, y, z=1):\n    pass\n\n\ndef f(q, *args, **kw):\n    for x in q:\n        g(x, *args, **kw)\n\n\ndef h():\n    f([1], 2)\n",
}


def selftest():
    for name, src, want in (("bad", BAD, 6), ("good", GOOD, 0)):
        r = Repo(sources={k: v for k, v in src.items() if k.endswith(".py")})
        r.sources = src
        got = run(r).findings
        yield f"{name}: " + "; ".join(x.key for x in got), len(got) == want

    def fwd(a, b):
        r = Repo(sources={**FWD, "caput/a.py": FWD["caput/a.py"].replace(a, b)})
        r.sources = dict(FWD)
        return len(run(r).findings)

    yield "handed on", fwd("f([1], 2)", "f([1], 2)") == 0
    yield "handed on by name", fwd("f([1], 2)", "f([1], y=2)") == 0
    yield "handed on, missing", fwd("f([1], 2)", "f([1])") == 1
    yield "handed on, unknown", fwd("f([1], 2)", "f([1], 2, w=1)") == 1
    yield "handed on, too many", fwd("f([1], 2)", "f([1], 2, 3, 4)") == 1
    yield "changed on the way", fwd("    for x in q:\n", "    kw['y'] = 1\n    for x in q:\n") == 0
