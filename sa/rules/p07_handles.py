"""P07: files opened by name are closed on every way out, and handles handed in stay open."""

import ast

from ..core import ClassInfo, FuncInfo, Repo, walk_scope
from ..flow import NONE, TRUE, Budget, Client, Engine, const, mk
from ..report import Result

OPENERS = {
    "open", "io.open", "os.open", "os.fdopen", "h5py.File", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile",
    "gzip.open", "bz2.open", "lzma.open", "tarfile.open", "zipfile.ZipFile", "codecs.open",
}
READERS = {"dict", "list", "tuple", "set", "sorted", "int", "float", "str", "iter", "next"}  # look into a file, which may fail
WORDS = {"open", "File", "close", "NamedTemporaryFile", "TemporaryFile", "fdopen", "ExitStack", "closing"}


def relevant(repo):
    """Functions that open or close something themselves."""
    rel = set()
    for f in repo.all_functions():
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                if nm in WORDS:
                    rel.add(f)
                    break
    # callers of functions that return a handle
    return rel


def opens(repo, rel):
    """Helpers analysed in place: functions returning a handle they opened, closing one they are given, or context managers."""
    ret, closers = set(), set()

    def opener(call, f):
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, "id", None)
        if nm in ("open", "File", "NamedTemporaryFile", "TemporaryFile", "fdopen"):
            return True
        r = repo.resolve_expr(call.func, f.module, f)
        return isinstance(r, FuncInfo) and r in ret

    changed = True
    while changed:
        changed = False
        for f in repo.all_functions():
            if f in ret:
                continue
            names, direct, any_open = set(), False, False
            body = list(walk_scope(f.node))
            for n in body:
                if isinstance(n, ast.Call) and opener(n, f):
                    any_open = True
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Call) and opener(x, f) for x in [n.value, *ast.iter_child_nodes(n.value)]):
                    names |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            for n in body:
                if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                    vs = [n.value, *ast.iter_child_nodes(n.value)]
                    if any((isinstance(x, ast.Call) and opener(x, f)) or (isinstance(x, ast.Name) and x.id in names) for x in vs):
                        direct = True
            if direct or (any_open and any(d.split(".")[-1] == "contextmanager" for d in f.decorators)):
                ret.add(f)
                changed = True
    for f in repo.all_functions():
        ps = set(f.bound_params())
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close":
                if isinstance(n.func.value, ast.Name) and (n.func.value.id in ps or any(isinstance(a, ast.Name) and a.id in ps for a in n.args)):
                    closers.add(f)
    return ret | closers


def is_h5_class(t):
    return any(x.k == "g" and isinstance(x.a[0], str) and x.a[0].startswith("h5py.") for x in t.walk())


def fmt_name(t):
    """'HDF5'/'Zarr' when the term denotes that file format class."""
    if t.k in ("g", "cls") and isinstance(t.a[0], ClassInfo):
        if any(c.name == "FileFormat" for c in t.a[0].mro()):
            return t.a[0].name
    return None


def name_only(f, p):
    """Parameters documented as file names never hold an open file."""
    if any(w in p for w in ("name", "path")):
        return True
    a = f.node.args
    for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
        if x.arg == p and x.annotation is not None and ast.unparse(x.annotation) in ("str", "os.PathLike", "Path"):
            return True
    return False


class Handles(Client):
    """mon: (open handles: frozenset[(term, desc)], closed caller handles)."""

    max_states = 40
    max_depth = 4
    stable_attrs = {"opened", "is_mpi"}

    def __init__(self, res, f, inl, called=()):
        self.res, self.f, self.inl, self.called = res, f, inl, called
        self.sites = set()

    def initial(self, func):
        return frozenset()

    def inline(self, eng, callee, depth):
        return callee in self.inl or (callee.parent is not None and callee.parent in eng.stack and callee.parent in self.inl | {self.f})

    def opened(self, eng, st, node, fn, args, kws):
        t = mk("handle", id(node), eng.func.qualname, fn)
        self.sites.add((eng.func.module.rel, node.lineno, node.col_offset))
        s = st.copy()
        s.mon = st.mon | {(t, f"{ast.unparse(node.func)}"), (mk("openedhere"), "")}
        return ([(s, t)], [st])

    def on_call(self, eng, st, node, fn, args, kws, callee):
        d = fn.a[0] if fn.k == "g" and isinstance(fn.a[0], str) else None
        if d in OPENERS:
            return self.opened(eng, st, node, fn, args, kws)
        if d == "os.close" and args:
            return self.closed(eng, st, args[0], node)
        if d in READERS and any(x.k == "handle" for a in args for x in a.walk()):
            return ([(st, mk("call", id(node), fn, tuple(args), tuple(kws)))], [st])
        if d == "contextlib.closing" and args:
            return [(st, mk("closing", args[0]))]
        if d == "contextlib.ExitStack":
            return [(st, mk("exitstack", id(node)))]
        if d and d.startswith("zarr."):
            return None
        if fn.k == "attr" and (fn.a[0].k == "exitstack" or fn.a[0].k == "enter" and fn.a[0].a[0].k == "exitstack"):
            # the stack closes it when it is left; it is only a local object
            if fn.a[1] in ("enter_context", "push") and args:
                return ([(self.drop(st, args[0]), args[0])], [self.drop(st, args[0])])
            if fn.a[1] == "callback" and args and args[0].k in ("attr", "bound") and args[0].a[-1] in ("close", "__exit__"):
                return ([(self.drop(st, args[0].a[0]), args[0])], [st])
        name = fn.a[1] if fn.k == "attr" else (fn.a[0].name if fn.k == "bound" and hasattr(fn.a[0], "name") else None)
        if isinstance(callee, FuncInfo) and callee.cls is not None and callee.name == "open" and any(c.name == "FileFormat" for c in callee.cls.mro()):
            if callee.cls.name == "Zarr":
                return [(self.mark(st), mk("zarrgroup", id(node)))]
            return self.opened(eng, st, node, fn, args, kws)
        if name == "open" and callee is None and fn.k == "attr":
            base = fn.a[0]
            if base.k in ("param", "call", "attr", "unk", "phi", "loopvar"):
                z = self.zarr_fact(st, base)
                if z:
                    return [(self.mark(st), mk("zarrgroup", id(node)))]
                t = self.opened(eng, st, node, fn, args, kws)
                return t
        if name in ("close", "__exit__") and fn.k == "attr":
            return self.closed(eng, st, fn.a[0], node)
        return None

    def mark(self, st):
        s = st.copy()
        s.mon = s.mon | {(mk("openedhere"), "")}
        return s

    def zarr_fact(self, st, fmt):
        for t, v in st.facts.items():
            if t.k == "cmp" and t.a[0] in ("==", "is") and (t.a[1] is fmt or t.a[2] is fmt):
                o = t.a[2] if t.a[1] is fmt else t.a[1]
                n = fmt_name(o)
                if (n == "Zarr" and v) or (n == "HDF5" and not v):
                    return True
        return False

    def handles_in(self, st, t, direct=True):
        out = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.k == "handle":
                out.add(x)
            elif x.k == "phi":
                stack += list(x.a[0])
            elif x.k in ("enter", "closing"):
                stack.append(x.a[0])
            elif x.k == "tuple":
                stack += list(x.a[0])
            elif x.k in ("list", "set"):
                stack += list(x.a[1])
            elif x.k == "dict":
                stack += [y for _, y in x.a[1]]
            elif x.k == "new" or x.k == "call":
                # an object built around the handle
                if x.k == "call" and not self.constructs(x):
                    continue
                for y in x.subs():
                    if y is not x.a[1]:
                        stack.append(y)
        return out

    def constructs(self, call):
        fn = call.a[1]
        if fn.k == "g" and isinstance(fn.a[0], ClassInfo):
            return True
        if fn.k == "cls":
            return True
        if fn.k in ("attr", "bound"):
            for x in fn.subs():
                if x.k == "cls" or (x.k == "g" and isinstance(x.a[0], ClassInfo)):
                    return True
            r = fn.a[0] if isinstance(fn.a[0], FuncInfo) else None
            if r is not None and r.is_classmethod:
                return True
        if fn.k == "g" and isinstance(fn.a[0], FuncInfo) and (fn.a[0].is_classmethod):
            return True
        return False

    def drop(self, st, t):
        hs = self.handles_in(st, t)
        if not hs:
            return st
        s = st.copy()
        s.mon = frozenset(e for e in st.mon if e[0] not in hs)
        return s

    def closed(self, eng, st, t, node):
        self.check_caller(eng, st, t, node)
        s = self.drop(st, t)
        return ([(s, NONE)], [s])

    def check_caller(self, eng, st, t, node):
        while t.k in ("enter", "closing"):
            t = t.a[0]
        for x in t.a[0] if t.k == "phi" else [t]:
            while x.k in ("item", "iter"):
                x = x.a[0]
            if x.k == "param" and eng.stack and x.a[0] in self.f.all_params() and not name_only(self.f, x.a[0]):
                ps = self.f.all_params()
                if self.f.is_method and ps and ps[0] == x.a[0]:
                    continue
                if self.f in self.inl and self.f.name.startswith("_") and self.f in self.called:
                    continue  # a helper, judged where it is used
                self.res.add(
                    "caller-handle-closed", self.f.qualname, x.a[0], eng.func.loc(node),
                    f"the open file passed in as '{x.a[0]}' is closed although it was not opened here",
                )

    def on_with(self, eng, st, term, node, enter):
        if not enter:
            self.check_caller(eng, st, term, node)
            return self.drop(st, term)
        return st

    def on_branch(self, eng, st, t, taken, node):
        # evidence that a handle of unknown format is a zarr group (nothing to close)
        if t.k == "isinst" and not taken and is_h5_class(t.a[1]):
            return self.drop_unknown(st, t.a[0])
        if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] == "hasattr" and not taken and t.a[2]:
            return self.drop_unknown(st, t.a[2][0])
        if t.k == "cmp" and t.a[0] in ("==", "is"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                n = fmt_name(y)
                if n and ((n == "Zarr" and taken) or (n == "HDF5" and not taken)):
                    hs = {e for e in st.mon if e[0].k == "handle" and e[0].a[2].k == "attr" and e[0].a[2].a[0] is x}
                    if hs:
                        st = st.copy()
                        st.mon = st.mon - hs
                if n:
                    # keep the formats on separate paths
                    st = st.copy()
                    st.mon = st.mon | {(mk("fmt", t, const(taken)), "")}
        return st

    def drop_unknown(self, st, t):
        hs = {h for h in self.handles_in(st, t) if h.a[2].k == "attr"}
        if hs:
            st = st.copy()
            st.mon = frozenset(e for e in st.mon if e[0] not in hs)
        return st

    def escape(self, eng, st, val):
        hs = self.handles_in(st, val)
        if not hs:
            return st
        s = st.copy()
        s.mon = frozenset(e for e in st.mon if e[0] not in hs) | {(mk("escaped", h), "") for h in hs}
        return s

    def on_store_attr(self, eng, st, base, attr, val, node):
        if "close" in attr and not self.handles_in(st, val):
            r = truth(eng, st, val)
            if r is not None:
                val = const(r)
            st = st.copy()
            st.mon = frozenset(e for e in st.mon if not (e[0].k == "marker" and e[0].a[:2] == (base, attr))) | {(mk("marker", base, attr, val), "")}
        if base.k in ("self", "new", "cls") or (base.k == "param"):
            return self.escape(eng, st, val)
        return st

    def on_store_item(self, eng, st, base, idx, val, node):
        if base.k in ("attr", "param"):
            return self.escape(eng, st, val)
        return st

    def on_yield(self, eng, st, val, node):
        return st

    def on_subscript(self, eng, st, b, i, t, e, out):
        if self.handles_in(st, b):
            out.exc.append((st, mk("exc", "any")))
        return None


def super_init_escape(c, eng, st, fn, args, kws):
    pass


class Handles2(Handles):
    def on_call(self, eng, st, node, fn, args, kws, callee):
        r = super().on_call(eng, st, node, fn, args, kws, callee)
        if r is None and isinstance(callee, FuncInfo) and callee.name == "__init__" and not self.inline(eng, callee, eng.depth):
            s = st
            for a in list(args) + [v for _, v in kws]:
                s = self.escape(eng, s, a)
            if s is not st:
                return ([(s, NONE)], [s])
        if r is None and fn.k == "attr" and fn.a[1] in ("append", "extend", "add") and fn.a[0].k == "attr":
            s = st
            for a in args:
                s = self.escape(eng, s, a)
            if s is not st:
                return [(s, NONE)]
        return r


def flag_false(eng, st, f, val):
    """The 'close it later' marker of the object receiving a handle is constantly False."""
    objs = {val}
    ps = f.params()
    if f.is_method and ps:
        objs.add(st.env.get(ps[0]))
    for o in objs:
        if o is None:
            continue
        for b, a, v in markers(st):
            if b is o:
                s = st.copy()
                s.facts = dict(st.facts)
                for t in v.walk():
                    if t.k == "isinst" and is_h5_class(t.a[1]) and any(x.k == "handle" for x in t.a[0].walk()):
                        s.facts[t] = True
                if truth(eng, s, v) is False:
                    return a
    return None


def truth(eng, st, v):
    r = eng.truth(st, v)
    if r is None and v.k == "un" and v.a[0] == "not":
        x = truth(eng, st, v.a[1])
        return None if x is None else not x
    if r is None and v.k == "phi":
        rs = {truth(eng, st, x) for x in v.a[0]}
        return rs.pop() if len(rs) == 1 else None
    return r


def flag_true(eng, st, f, val):
    """The 'close it later' marker of an object may be set."""
    ps = f.params()
    objs = {val, st.env.get(ps[0]) if f.is_method and ps else None} - {None}
    for b, a, v in markers(st):
        if b in objs and truth(eng, st, v) is not False:
            return a
    return None


def markers(st):
    return [e[0].a for e in st.mon if e[0].k == "marker"]


def run(repo, tier):
    res = Result(stats={"functions": 0, "open_sites": 0, "paths": 0, "handed_over": 0, "budget_exceeded": 0})
    rel = relevant(repo)
    ops = opens(repo, rel)
    sites = set()
    todo = []
    for f in repo.all_functions():
        if f.parent is not None or f.name == "open" and f.cls is not None:
            continue
        if f in rel or any(isinstance(n, ast.Call) and repo.resolve_expr(n.func, f.module, f) in ops for n in ast.walk(f.node)):
            todo.append(f)
    # helpers analysed in place: everything that opens, returns or closes handles
    inl = ops
    called = {r for f in repo.all_functions() for n in ast.walk(f.node) if isinstance(n, ast.Call)
              for r in [repo.resolve_expr(n.func, f.module, f)] if isinstance(r, FuncInfo) and r in ops and r is not f}
    for f in todo:
        c = Handles2(res, f, inl, called)
        eng = Engine(repo, c)
        res.stats["functions"] += 1
        try:
            o = eng.run(f)
        except Budget:
            res.stats["budget_exceeded"] += 1
            continue
        sites |= c.sites
        handed = set()
        for s, v in o.ret:
            got = c.handles_in(s, v)
            for e in s.mon:
                if e[0].k == "escaped":
                    handed.add(e[0].a[0])
                    got.add(e[0].a[0])
            handed |= got
            res.stats["paths"] += 1
            live = [e for e in s.mon if e[0].k == "handle"]
            for h, desc in live:
                if h in got:
                    continue
                res.add("file-left-open", f.qualname, desc, f.loc(), f"a path returns from {f.short()} while the file opened by {desc}(...) is still open")
            if got and f.cls is not None:
                a = flag_false(eng, s, f, v)
                if a and any(not _zarr_only(c, s, h) for h in got):
                    res.add("owner-will-not-close", f.qualname, a, f.loc(), f"the object takes over a file opened here but its '{a}' marker is False, so closing the object leaves the file open")
            if f.cls is not None and not any(e[0].k == "openedhere" for e in s.mon):
                a = flag_true(eng, s, f, v)
                if a:
                    res.add("owner-will-close-callers-file", f.qualname, a, f.loc(), f"on a path on which nothing was opened here the '{a}' marker of the object may be set, so closing the object closes the caller's file")
        res.stats["handed_over"] += len(handed)
        for s, e in o.exc:
            res.stats["paths"] += 1
            for h, desc in s.mon:
                if h.k != "handle" or h in handed:
                    continue
                res.add("file-left-open-on-error", f.qualname, desc, f.loc(), f"when an error is raised in {f.short()} the file opened by {desc}(...) is still open")
    owner_close(repo, res)
    res.stats["open_sites"] = len(sites)
    res.floors = {"open_sites": 10, "functions": 10}
    res.explanation = (
        "Typestate over file handles: every call that opens a plain file, descriptor or HDF5 file is followed along all normal and "
        "exceptional paths of every function reaching it (openers, closers and context managers analysed in place). At each exit the handle must be closed, returned or "
        "stored in an object that will close it; handles received as arguments must not be closed."
    )
    res.assumptions = ["zarr groups hold no open file between operations", "a handle of a format not fixed on the path is treated as HDF5"]
    return res


def _zarr_only(c, st, h):
    fn = h.a[2]
    return fn.k == "attr" and c.zarr_fact(st, fn.a[0])


def owner_close(repo, res):
    """Objects that take over a file close it when asked to."""
    cls = repo.try_cls("caput.memdata.MemDiskGroup")
    if cls is None:
        return
    f = cls.lookup("close")
    if f is None:
        res.add("owner-does-not-close", cls.qualname, "close", cls.module.rel, "the class takes over files but has no close method")
        return

    class C(Client):
        """mon: closed the stored file?  The object holds an HDF5 file it was told to close."""

        max_depth = 3
        max_states = 200

        def initial(self, f):
            return False

        def inline(self, eng, callee, depth):
            return callee.cls is not None

        def on_call(self, eng, st, node, fn, args, kws, callee):
            if fn.k == "attr" and fn.a[1] == "close":
                s = st.copy()
                s.mon = True
                return [(s, NONE)]
            if fn.k == "g" and fn.a[0] == "hasattr":
                if args and args[0].k == "self" and args[1].k == "const" and args[1].a[1] in ("_toclose", "_storage_root"):
                    return [(st, TRUE)]
            if fn.k == "g" and fn.a[0] == "isinstance" and is_h5_class(args[1]) and args[0].k != "self":
                return [(st, TRUE)]
            return None

    eng = Engine(repo, C())
    me = mk("self", cls)
    o = eng.run(f, heap={(me, "_toclose"): TRUE})
    res.stats["owner_paths"] = len(o.ret)
    for s, _ in o.ret:
        if not s.mon:
            res.add("owner-does-not-close", f.qualname, "close", f.loc(), "closing an object that took over an HDF5 file does not close the file")
    o = Engine(repo, C()).run(f, heap={(me, "_toclose"): const(False)})
    for s, _ in o.ret:
        if s.mon:
            res.add("owner-closes-callers-file", f.qualname, "close", f.loc(), "closing an object around a file it was given open closes the caller's file")
    for ex in ("__exit__",):
        g = cls.lookup(ex)
        if g is None:
            continue
        names = {n.func.attr for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        if "close" not in names:
            res.add("owner-does-not-close", g.qualname, ex, g.loc(), "leaving the object's context does not close it")


POS = """
import os
def a(name):
    return open(name).read()
def b(name, x):
    f = open(name)
    y = x.compute(f)
    f.close()
    return y
def c(name, q):
    f = open(name)
    if q:
        return None
    f.close()
def d(f):
    f.read()
    f.close()
def e(name, g):
    fd = os.open(name, os.O_RDWR)
    g.go(fd)
    os.close(fd)
"""
NEG = """
import contextlib
def a(name):
    with open(name) as f:
        return f.read()
def b(name, x):
    f = open(name)
    try:
        return x.go(f)
    finally:
        f.close()
def c(name):
    return open(name)
def d(name, x):
    f = c(name)
    with f:
        return x.go(f)
def e(name, x):
    opened = isinstance(name, str)
    f = open(name) if opened else name
    try:
        return x.go(f)
    finally:
        if opened:
            f.close()
def g(name, x):
    with contextlib.ExitStack() as st:
        f = st.enter_context(open(name))
        return x.go(f)
"""


def selftest():
    got = {f.construct.split(".")[-1] for f in run(Repo(sources={"caput/x.py": POS}), "q").findings}
    neg = run(Repo(sources={"caput/x.py": NEG}), "q").findings
    return [(n, n in got) for n in "abcde"] + [(f"negatives {[f.key for f in neg]}", not neg)]
