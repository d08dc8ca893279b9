"""P20: results of multi-threaded loops do not depend on the number of threads or on their scheduling."""

import ast
import re

from .. import cy
from ..bounds import Lin, num
from ..core import FuncInfo, Repo, dotted, walk_scope
from ..report import Result

V = "@v"
# methods of C++ containers that change nothing
CONST = {"size", "empty", "front", "back", "get", "weighted_median", "begin", "end", "at", "top", "count", "find", "use_count"}
PURE = {"len", "isinstance", "str", "repr", "int", "float", "bool", "range", "min", "max", "abs", "type", "getattr", "hasattr", "slice", "tuple", "list", "dict", "id",
        "TypeError", "ValueError", "RuntimeError", "enumerate", "zip"}
THREADID = {"threadid", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "get_ident"}


def is_prange(n):
    if not isinstance(n, ast.For) or not isinstance(n.iter, ast.Call):
        return False
    f = n.iter.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


def is_parallel(n):
    if not isinstance(n, ast.With):
        return False
    for i in n.items:
        c = i.context_expr
        f = c.func if isinstance(c, ast.Call) else c
        if (isinstance(f, ast.Name) and f.id == "parallel") or (isinstance(f, ast.Attribute) and f.attr == "parallel"):
            return True
    return False


def stored(stmts):
    out = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


class Loop:
    """One parallel loop: collects array accesses and checks that scalars are set before use in each iteration."""

    def __init__(self, fns, fn, loop, private_objs):
        self.fns, self.fn, self.loop = fns, fn, loop
        self.acc = {}  # root -> [(write, forms, line, where)]
        self.found = []
        self.private_objs = private_objs
        self.n = 0
        self.depth = 0

    def report(self, line, rule, detail, msg):
        self.found.append((line, rule, detail, msg))

    # -- index forms -------------------------------------------------------------
    def form(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return num(e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id) if e.id in env else Lin.sym(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            f = self.form(e.operand, env)
            return f.scale(-1) if f is not None else None
        if isinstance(e, ast.BinOp):
            a, b = self.form(e.left, env), self.form(e.right, env)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                if a.const() is not None:
                    return b.scale(a.k)
                if b.const() is not None:
                    return a.scale(b.k)
                if V not in a.c and V not in b.c and not any(s.startswith("@") for s in [*a.c, *b.c]):
                    return Lin.sym(f"({a!r})*({b!r})")
            elif V not in a.c and V not in b.c and not any(s.startswith("@") for s in [*a.c, *b.c]):
                return Lin.sym(f"({a!r}){type(e.op).__name__}({b!r})")
            return None
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
            if all(x not in env for x in names):
                return Lin.sym(ast.unparse(e))
        return None

    def inner(self, name):
        self.n += 1
        return Lin.sym(f"@in{self.n}.{name}")

    # -- walking -------------------------------------------------------------------
    def axes(self, sub, env):
        idx = sub.slice.elts if isinstance(sub.slice, ast.Tuple) else [sub.slice]
        return [":" if isinstance(i, ast.Slice) or (isinstance(i, ast.Constant) and i.value is Ellipsis) else self.form(i, env) for i in idx]

    def access(self, name, axes, write, line, fn, views):
        root, fixed = views[name]
        forms = []
        it = iter(axes)
        for f in fixed:
            forms.append(next(it, ":") if isinstance(f, str) and f == ":" else f)
        forms += list(it)
        self.acc.setdefault(root, []).append((write, forms, line, fn.name))

    def expr(self, e, env, views, fn, write=False):
        """Record accesses in an expression."""
        if e is None:
            return
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Name) and e.value.id in views:
                self.access(e.value.id, self.axes(e, env), write, e.lineno, fn, views)
            else:
                self.expr(e.value, env, views, fn)
            for c in ast.walk(e.slice):
                if isinstance(c, ast.Subscript):
                    self.expr(c, env, views, fn)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, env, views, fn, write)
            return
        if isinstance(e, ast.Call):
            self.call(e, env, views, fn)
            return
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self.expr(x, env, views, fn, write)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env, views, fn)

    def call(self, e, env, views, fn):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.value.id if isinstance(f, ast.Subscript) and isinstance(f.value, ast.Name) else None
        if name in THREADID or (isinstance(f, ast.Attribute) and f.attr in THREADID):
            self.report(e.lineno, "thread-dependent", ast.unparse(e), f"{ast.unparse(e)} depends on the thread that runs the iteration")
        if isinstance(f, ast.Attribute):
            self.expr(f.value, env, views, fn)
        callee = self.fns.get(name)
        args = [(callee.args[i] if callee and i < len(callee.args) else None, a) for i, a in enumerate(e.args)]
        args += [(k.arg, k.value) for k in e.keywords]
        sub_env, sub_views = {}, {}
        for p, a in args:
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "__addr__":
                x = a.args[0]
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in views:
                    ax = self.axes(x, env)
                    self.access(x.value.id, [*ax[:-1], ":"], True, e.lineno, fn, views)
                elif isinstance(x, ast.Name):
                    pass
                continue
            if isinstance(a, ast.Name) and a.id in views:
                if callee is not None and p:
                    sub_views[p] = views[a.id]
                elif not (name == "len" or (isinstance(f, ast.Attribute) and f.attr == "len")):
                    self.access(a.id, [], True, e.lineno, fn, views)
                continue
            if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in views and callee is not None and p:
                ct = callee.types.get(p)
                if ct is not None and ct.kind in ("view", "buffer"):
                    root, fixed = views[a.value.id]
                    ax = self.axes(a, env)
                    it = iter(ax)
                    sub_views[p] = (root, [next(it, ":") if isinstance(x, str) and x == ":" else x for x in fixed] + list(it))
                    continue
            self.expr(a, env, views, fn)
            if p:
                sub_env[p] = self.form(a, env)
        if callee is not None and self.depth < 4:
            for p in callee.args:
                sub_env.setdefault(p, self.inner(p))
            loc = stored(callee.node.body)
            for nm in loc:
                sub_env.setdefault(nm, self.inner(nm))
            self.depth += 1
            self.stmts(callee.node.body, dict(sub_env), sub_views, callee)
            self.depth -= 1

    def stmts(self, body, env, views, fn):
        for st in body:
            self.stmt(st, env, views, fn)

    def bind(self, t, value, env, views, fn):
        if isinstance(t, ast.Name):
            # a slice of a view bound to a local view
            if isinstance(value, ast.Subscript) and isinstance(value.value, ast.Name) and value.value.id in views:
                ax = self.axes(value, env)
                if any(isinstance(a, str) for a in ax) or (fn.types.get(t.id) is not None and fn.types[t.id].kind == "view"):
                    root, fixed = views[value.value.id]
                    it = iter(ax)
                    views[t.id] = (root, [next(it, ":") if isinstance(x, str) and x == ":" else x for x in fixed] + list(it))
                    return
            if isinstance(value, ast.Name) and value.id in views:
                views[t.id] = views[value.id]
                return
            self.expr(value, env, views, fn)
            f = self.form(value, env) if value is not None else None
            env[t.id] = f if f is not None else self.inner(t.id)
            return
        self.expr(value, env, views, fn)
        self.target(t, env, views, fn)

    def target(self, t, env, views, fn):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, env, views, fn)
        elif isinstance(t, ast.Name):
            env[t.id] = self.inner(t.id)
        else:
            self.expr(t, env, views, fn, write=True)

    def stmt(self, st, env, views, fn):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.bind(t, st.value, env, views, fn)
        elif isinstance(st, ast.AugAssign):
            self.expr(st.value, env, views, fn)
            if isinstance(st.target, ast.Name):
                env[st.target.id] = self.inner(st.target.id)
            else:
                self.expr(st.target, env, views, fn)
                self.expr(st.target, env, views, fn, write=True)
        elif isinstance(st, ast.Expr):
            self.expr(st.value, env, views, fn)
        elif isinstance(st, ast.If):
            self.expr(st.test, env, views, fn)
            e1, e2 = dict(env), dict(env)
            self.stmts(st.body, e1, views, fn)
            self.stmts(st.orelse, e2, views, fn)
            for k in set(e1) | set(e2):
                a, b = e1.get(k), e2.get(k)
                env[k] = a if a is not None and b is not None and a.key() == b.key() else self.inner(k)
        elif isinstance(st, (ast.For, ast.While)):
            for nm in stored(st.body):
                env[nm] = self.inner(nm)
            if isinstance(st, ast.For):
                self.expr(st.iter, env, views, fn)
                self.target(st.target, env, views, fn)
            else:
                self.expr(st.test, env, views, fn)
            self.stmts(st.body, env, views, fn)
            for nm in stored(st.body):
                env[nm] = self.inner(nm)
            self.stmts(st.orelse, env, views, fn)
        elif isinstance(st, ast.With):
            self.stmts(st.body, env, views, fn)
        elif isinstance(st, ast.Try):
            for b in (st.body, *[h.body for h in st.handlers], st.orelse, st.finalbody):
                self.stmts(b, env, views, fn)
        elif isinstance(st, ast.Return):
            self.expr(st.value, env, views, fn)

    # -- carried scalars ---------------------------------------------------------
    def carried(self):
        body = self.loop.body
        mod = stored(body)
        types = self.fn.types
        mutated = {}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    o = n.func.value.id
                    if o in types and types[o].kind == "cpp" and n.func.attr not in CONST:
                        mutated.setdefault(o, n)
        for o, n in sorted(mutated.items()):
            if o not in mod and o not in self.private_objs:
                self.report(n.lineno, "shared-object", o, f"{o} is changed by every iteration but shared by all threads")
        # reductions: only in-place operations, never read otherwise
        reductions = set()
        for nm in mod:
            uses = [n for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == nm]
            augs = [n for st in body for n in ast.walk(st) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == nm]
            if augs and len(uses) == len(augs) and len({type(a.op) for a in augs}) == 1:
                reductions.add(nm)
        self.track = (mod | set(mutated)) - reductions
        self.seen = set()
        self.da(body, frozenset({self.loop.target.id} if isinstance(self.loop.target, ast.Name) else ()))

    def read(self, e, done):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.track and n.id not in done and n.id not in self.seen:
                self.seen.add(n.id)
                self.report(n.lineno, "carried", n.id, f"{n.id} may be used before the iteration has set it: its value is left over from whatever iteration the thread ran before")

    def da(self, body, done):
        """Names set on every normal way through; None when no way continues."""
        for st in body:
            done = self.da1(st, done)
            if done is None:
                return None
        return done

    def da1(self, st, done):
        if isinstance(st, ast.Assign):
            self.read(st.value, done)
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        done = done | {n.id}
                self.read(t, done)
            return done
        if isinstance(st, ast.AugAssign):
            self.read(st.value, done)
            if isinstance(st.target, ast.Name):
                self.read(ast.copy_location(ast.Name(id=st.target.id, ctx=ast.Load()), st), done)
                return done | {st.target.id}
            self.read(st.target, done)
            return done
        if isinstance(st, ast.Expr):
            c = st.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in ("clear", "reset", "assign") and c.func.value.id in self.track:
                for a in c.args:
                    self.read(a, done)
                return done | {c.func.value.id}
            self.read(c, done)
            return done
        if isinstance(st, ast.If):
            self.read(st.test, done)
            a, b = self.da(st.body, done), self.da(st.orelse, done)
            return b if a is None else a if b is None else a & b
        if isinstance(st, ast.For):
            self.read(st.iter, done)
            inner = done | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            self.da(st.body, inner)
            return self.da(st.orelse, done) if st.orelse else done
        if isinstance(st, ast.While):
            self.read(st.test, done)
            self.da(st.body, done)
            return done
        if isinstance(st, ast.With):
            return self.da(st.body, done)
        if isinstance(st, (ast.Raise, ast.Return, ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.Try):
            a = self.da(st.body, done)
            for h in st.handlers:
                self.da(h.body, done)
            return a if not st.handlers else done
        return done

    def decide(self):
        if not isinstance(self.loop.target, ast.Name):
            return
        views = {n: (n, []) for n, t in self.fn.types.items() if t.kind in ("view", "buffer", "array")}
        views = self.alias(views)
        env = {nm: self.inner(nm) for nm in stored(self.loop.body)}
        env[self.loop.target.id] = Lin.sym(V)
        self.stmts(self.loop.body, env, views, self.fn)
        for root, accs in sorted(self.acc.items()):
            writes = [a for a in accs if a[0]]
            if not writes:
                continue
            ok = False
            nax = max(len(a[1]) for a in accs)
            for k in range(nax):
                fs = [a[1][k] if k < len(a[1]) else None for a in accs]
                if all(isinstance(f, Lin) and f.c.get(V, 0) != 0 and not any(s.startswith("@in") for s in f.c) for f in fs) and len({f.key() for f in fs}) == 1:
                    ok = True
                    break
            if not ok:
                def bad(a):
                    return not any(isinstance(f, Lin) and f.c.get(V, 0) != 0 and not any(s.startswith("@in") for s in f.c) for f in a[1])
                w = next((a for a in accs if bad(a)), writes[0])
                self.report(w[2], "shared-element", root, f"different iterations can touch the same element of {root} and at least one of them writes it (in {w[3]})")
        self.carried()

    def alias(self, views):
        """Views bound to the same array before the loop."""
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name):
                a, b = n.targets[0].id, n.value.id
                if a in views and b in views and n.lineno < self.loop.lineno:
                    views[a] = views[b]
        return views


def cython_part(repo, res):
    nloops = nacc = 0
    for rel, p in sorted(cy.load_all(repo).items()):
        for fn in p.fns.values():
            blocks = [n for n in ast.walk(fn.node) if is_parallel(n)]
            loops = [n for n in ast.walk(fn.node) if is_prange(n)]
            for lp in loops:
                nloops += 1
                private = set()
                for b in blocks:
                    if any(x is lp for x in ast.walk(b)):
                        inside = {id(x) for x in ast.walk(lp)}
                        for x in ast.walk(b):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside:
                                private.add(x.id)
                L = Loop(p.fns, fn, lp, private)
                L.decide()
                nacc += sum(len(a) for a in L.acc.values())
                for line, rule, detail, msg in L.found:
                    res.add(rule, f"{rel}:{fn.name}", detail, f"{rel}:{line}", f"parallel loop in {fn.name}: {msg}")
            for b in blocks:
                in_loop = {id(x) for lp in loops for x in ast.walk(lp)}
                for x in ast.walk(b):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and id(x) not in in_loop and isinstance(x.value, ast.Name) and fn.types.get(x.value.id) is not None and fn.types[x.value.id].kind in ("view", "buffer"):
                        res.add("shared-element", f"{rel}:{fn.name}", ast.unparse(x), f"{rel}:{x.lineno}", f"{ast.unparse(x)} is written by every thread of the parallel block")
    return nloops, nacc


# -- C++ headers -----------------------------------------------------------------------
def strip_cpp(t):
    t = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), t, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r'"(\\.|[^"\\])*"', '""', t)
    return re.sub(r"^[ \t]*#[^\n]*(\\\n[^\n]*)*", "", t, flags=re.M)


def header_part(repo, res):
    n = 0
    for suffix in (".hpp", ".h"):
        for rel, text in sorted(cy.texts(repo, suffix).items()):
            n += 1
            t = strip_cpp(text)
            for m in re.finditer(r"\b(static|thread_local)\b([^;{=(]*)([;{=(])", t):
                decl, end = m.group(1) + m.group(2), m.group(3)
                if end == "(" or re.search(r"\b(const|constexpr)\b", decl) or re.search(r"\bconst(expr)?\s*$", t[: m.start()]):
                    continue
                line = t.count("\n", 0, m.start()) + 1
                res.add("shared-state", rel, " ".join(decl.split()), f"{rel}:{line}", f"variable with static storage `{' '.join(decl.split())}` is shared by all threads")
            # variables at namespace scope
            depth, nsd, i, start = 0, 0, 0, 0
            stack = []
            while i < len(t):
                c = t[i]
                if c == "{":
                    head = t[start:i]
                    ns = re.search(r"\bnamespace\b[^;(){}]*$", head) is not None or re.search(r'\bextern\s*""\s*$', head) is not None
                    stack.append(ns)
                    start = i + 1
                elif c == "}":
                    if stack:
                        stack.pop()
                    start = i + 1
                elif c == ";":
                    if all(stack):
                        s = t[start:i].strip()
                        if s and "(" not in s and not re.match(r"(using|typedef|class|struct|enum|template|friend|extern|static_assert|public|private|protected|union)\b", s) and not re.search(r"\b(const|constexpr)\b", s) and re.match(r"[\w:<>,&*\s]+\s+\w+(\s*\[[^\]]*\])?(\s*=.*)?$", s, flags=re.S):
                            line = t.count("\n", 0, i) + 1
                            res.add("shared-state", rel, " ".join(s.split()), f"{rel}:{line}", f"global variable `{' '.join(s.split())}` is shared by all threads")
                    start = i + 1
                i += 1
    return n


# -- thread pools in Python ------------------------------------------------------------
class Poly:
    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k = tuple(sorted(k1 + k2))
                d[k] = d.get(k, 0) + v1 * v2
        return Poly(d)


def poly(e, sub):
    if e is None:
        return Poly()
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return Poly({(): e.value})
    if isinstance(e, ast.Name):
        return sub.get(e.id) or Poly({(e.id,): 1})
    if isinstance(e, ast.BinOp):
        a, b = poly(e.left, sub), poly(e.right, sub)
        if a is None or b is None:
            return None
        if isinstance(e.op, ast.Add):
            return a + b
        if isinstance(e.op, ast.Sub):
            return a + b * Poly({(): -1})
        if isinstance(e.op, ast.Mult):
            return a * b
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "min" and e.args:
        for a in e.args:
            p = poly(a, sub)
            if p is not None and any(k for k in p.d):
                return p
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        return Poly({(ast.unparse(e),): 1})
    return None


def loop_of(repo, node, stop):
    """Innermost loop or comprehension around node: (iteration names, iterator expression)."""
    n = node
    while n is not None and n is not stop:
        p = repo.parents.get(n)
        if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and n is p.elt:
            names = {x.id for g in p.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            return names, p
        if isinstance(p, ast.For) and n is not p.iter:
            return {x.id for x in ast.walk(p.target) if isinstance(x, ast.Name)}, p
        n = p
    return set(), None


def derived(loop, names, node):
    """Names set in the loop body from iteration variables, with their defining expressions."""
    out = {}
    if isinstance(loop, ast.For):
        for st in loop.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                out[st.targets[0].id] = st.value
    return out


def expand(e, defs, depth=0):
    if depth > 4:
        return e

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in defs:
                return expand(defs[n.id], {k: v for k, v in defs.items() if k != n.id}, depth + 1)
            return n

    import copy

    return T().visit(copy.deepcopy(e))


def pool_part(repo, res):
    nsub = 0
    for f in repo.functions.values():
        for n in walk_scope(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "submit" and n.args):
                continue
            base = dotted(n.func.value) or ""
            if not re.search(r"exec|pool", base, re.I):
                continue
            nsub += 1
            names, loop = loop_of(repo, n, f.node)
            defs = derived(loop, names, n)
            where, loc = f.qualname, f"{f.module.rel}:{n.lineno}"
            worker = None
            if isinstance(n.args[0], ast.Name):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.FunctionDef) and x.name == n.args[0].id and x is not f.node:
                        worker = x
            args = n.args[1:] + [k.value for k in n.keywords]
            if loop is not None:
                for k, a in enumerate(args):
                    a = expand(a, defs)
                    used = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                    if not (used & names):
                        par = worker.args.args[k].arg if worker is not None and k < len(worker.args.args) else None
                        if par is None or mutates(worker, par):
                            res.add("shared-argument", where, ast.unparse(a), loc, f"every worker is handed the same {ast.unparse(a)} and may change it")
                        continue
                    check_slices(a, names, res, where, loc)
            if worker is not None:
                worker_writes(worker, res, where, f)
            else:
                continue
            check_waited(repo, f, n, res, where, loc)
    return nsub


def mutates(fn, par):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and root(n) == par:
            return True
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and root(n.func) == par:
                return True
            if isinstance(n.func, ast.Name) and n.func.id in PURE:
                continue
            if any(root(a) == par for a in [*n.args, *[k.value for k in n.keywords]]):
                return True
    return False


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def check_slices(a, names, res, where, loc):
    for x in ast.walk(a):
        if not isinstance(x, ast.Subscript):
            continue
        if isinstance(x.slice, ast.Slice):
            lo, up = x.slice.lower, x.slice.upper
            used = {y.id for y in ast.walk(x.slice) if isinstance(y, ast.Name)} & names
            if len(used) != 1 or x.slice.step is not None:
                if len(used) == 1 and x.slice.step is not None and isinstance(lo, ast.Name) and up is None:
                    continue  # strided shares x[i::n]
                if not used:
                    continue
            else:
                v = next(iter(used))
                nxt = {v: Poly({(v,): 1, (): 1})}
                l1, u0 = poly(lo, nxt) if lo is not None else None, poly(up, {}) if up is not None else None
                if l1 is not None and u0 is not None and l1.d == u0.d:
                    continue
                if isinstance(lo, ast.Subscript) and isinstance(up, ast.Subscript) and ast.unparse(lo.value) == ast.unparse(up.value):
                    l1, u0 = poly(lo.slice, nxt), poly(up.slice, {})
                    if l1 is not None and u0 is not None and l1.d == u0.d:
                        continue
            res.add("overlapping-parts", where, ast.unparse(x), loc, f"the parts {ast.unparse(x)} handed to different workers may overlap or leave gaps")
        elif {y.id for y in ast.walk(x.slice) if isinstance(y, ast.Name)} & names:
            p = poly(x.slice, {})
            if p is None or not all(len(k) <= 1 for k in p.d):
                res.add("shared-argument", where, ast.unparse(x), loc, f"different workers can be handed the same {ast.unparse(x)}")


def worker_writes(worker, res, where, f):
    params = {a.arg for a in [*worker.args.posonlyargs, *worker.args.args, *worker.args.kwonlyargs]}
    local = params | {n.id for n in ast.walk(worker) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    nonloc = {x for n in ast.walk(worker) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
    local -= nonloc
    # every worker stores the same value in the same place: no matter who is last
    same = set()
    for n in ast.walk(worker):
        if isinstance(n, ast.Assign) and not any(isinstance(x, (ast.Call, ast.BinOp)) for x in ast.walk(n.value)):
            for t in n.targets:
                names = {x.id for y in (n.value, getattr(t, "slice", None)) if y is not None for x in ast.walk(y) if isinstance(x, ast.Name)}
                if isinstance(t, (ast.Subscript, ast.Attribute)) and not names & local:
                    same.add(id(t))
    for n in ast.walk(worker):
        loc = f"{f.module.rel}:{getattr(n, 'lineno', worker.lineno)}"
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in nonloc:
            res.add("shared-write", where, n.id, loc, f"worker {worker.name} assigns {n.id}, which all workers share")
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            r = root(n)
            if r is not None and r not in local and id(n) not in same:
                res.add("shared-write", where, ast.unparse(n), loc, f"worker {worker.name} writes {ast.unparse(n)}, which all workers share")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in PURE:
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "pop", "update", "setdefault", "insert", "remove", "clear", "add", "shuffle", "spawn"):
                r = root(n.func.value)
                if r is not None and r not in local:
                    res.add("shared-write", where, ast.unparse(n.func), loc, f"worker {worker.name} changes {ast.unparse(n.func.value)}, which all workers share")
            for a in n.args:
                if isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)):
                    r = root(a)
                    if r == "self" and r not in local:
                        res.add("shared-write", where, ast.unparse(a), loc, f"worker {worker.name} hands {ast.unparse(a)}, which all workers share, to a routine that may change it")


def check_waited(repo, f, call, res, where, loc):
    """The list of futures is waited for in full and failures are raised."""
    # the variable(s) the futures end in
    n = call
    var = None
    while n is not None and n is not f.node:
        p = repo.parents.get(n)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            var = p.targets[0].id
            break
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "append" and isinstance(p.func.value, ast.Name):
            var = p.func.value.id
            break
        if isinstance(p, ast.Call) and (dotted(p.func) or "").split(".")[-1] in ("wait", "as_completed"):
            var = "@direct"
            break
        n = p
    if var is None:
        res.add("not-awaited", where, "submit", loc, "submitted work is never waited for")
        return
    # as_completed / wait / result / exception over the variable
    waited = errors = False
    for x in walk_scope(f.node):
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
            if nm == "wait" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == var:
                kw = {k.arg for k in x.keywords}
                if not kw & {"timeout", "return_when"} and len(x.args) == 1:
                    waited = True
            if nm in ("result", "exception") and not x.args:
                for lp in walk_scope(f.node):
                    if isinstance(lp, (ast.For, ast.ListComp, ast.GeneratorExp)):
                        its = [lp.iter] if isinstance(lp, ast.For) else [g.iter for g in lp.generators]
                        if any(isinstance(y, ast.Name) and y.id == var and not sliced(repo, y) for it in its for y in ast.walk(it)) and any(y is x for y in ast.walk(lp)):
                            errors = True
                            if not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("done", "running", "cancelled") for y in ast.walk(lp)):
                                waited = True
    if not waited:
        res.add("not-awaited", where, var, loc, f"the routine can return before all the work in {var} has finished")
    elif not errors:
        res.add("lost-failure", where, var, loc, f"a failure of the work in {var} is never looked at")


def sliced(repo, n):
    p = repo.parents.get(n)
    return isinstance(p, ast.Subscript) and p.value is n


def run(repo, tier="quick"):
    res = Result()
    nloops, nacc = cython_part(repo, res)
    nh = header_part(repo, res)
    nsub = pool_part(repo, res)
    res.stats = {"parallel_loops": nloops, "array_accesses": nacc, "headers": nh, "submissions": nsub}
    if repo.sources is None:
        res.floors = {"parallel_loops": 12, "array_accesses": 60, "headers": 4, "submissions": 1}
    res.explanation = (
        "For every parallel loop of the compiled code: each array that is written is only accessed at an index that belongs to the iteration, every scalar is "
        "set before use within the iteration, and containers are private to the thread and emptied first; header code keeps no mutable global state; work "
        "handed to a thread pool gets its own arguments, disjoint parts of the output, writes nothing shared, is waited for and its failures are raised"
    )
    res.assumptions = [
        "distinct array arguments do not overlap in memory except as the same array with the same indexing",
        "reductions (only in-place operations on a scalar) are accepted",
        "number generators of a pool depend on the chosen number of threads by design",
    ]
    return res


BAD = {
    "caput/__init__.py": "",
    "caput/p.py": """
import concurrent.futures
class G:
    def go(self, out, n, step, opts):
        def work(g, part):
            opts["k"] = len(part)
            part[:] = g.random(len(part))
        fs = [self._executor.submit(work, self.gens[0], out[i * step:(i + 1) * step + 1]) for i in range(n)]
        return out
""",
    "caput/k.pyx": """
cimport cython
from cython.parallel import prange
def f(double[:] a, double[:, :] b):
    cdef Py_ssize_t i, j, n = a.shape[0]
    cdef double s = 0, t
    for i in prange(n, nogil=True):
        for j in range(3):
            if b[i, j] > t:
                t = b[i, j]
        a[0] = t
        b[i, 0] = b[i - 1, 0]
""",
    "caput/h.hpp": "namespace q { int counter = 0; inline int f(int x) { static int last = 0; last = x; return last; } }\n",
}
GOOD = {
    "caput/__init__.py": "",
    "caput/p.py": """
import concurrent.futures
class G:
    def go(self, out, n, step, opts):
        def work(g, part):
            part[:] = g.random(len(part))
        fs = []
        for i in range(n):
            lo = i * step
            fs.append(self._executor.submit(work, self.gens[i], out[lo:lo + step]))
        concurrent.futures.wait(fs)
        for x in fs:
            x.result()
        return out
""",
    "caput/k.pyx": """
cimport cython
from cython.parallel import prange
cdef void g(double[:] a, Py_ssize_t k, double t) noexcept nogil:
    a[k] = t
def f(double[:] a, double[:, :] b):
    cdef Py_ssize_t i, j, n = a.shape[0]
    cdef double s = 0, t
    for i in prange(n, nogil=True):
        t = 0
        for j in range(3):
            if b[i, j] > t:
                t = b[i, j]
        g(a, i, t)
        s += t
    return s
""",
    "caput/h.hpp": "namespace q { const int limit = 0; static const int m = 1; template<typename T> class X; static int f(int x) { int last = 0; return last; } }\n",
}


def _repo(src):
    r = Repo(sources={k: v for k, v in src.items() if k.endswith(".py")})
    r.sources = src
    return r


def selftest():
    for name, src, want in (("bad", BAD, 9), ("good", GOOD, 0)):
        got = run(_repo(src)).findings
        yield f"{name}: " + "; ".join(x.key for x in got), len(got) == want
