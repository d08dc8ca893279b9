"""P04: shared files are prepared, replaced and removed by one process, and the others wait for it.

Every routine is read as a sequence of events (file system and dataset actions with the processes that perform them,
synchronising collectives), library callees and context managers read in place.  Two actions of different processes on
one path, at least one of which changes it, need a synchronisation between them.
"""

import ast

from ..core import ClassInfo, FuncInfo, Repo, dotted, enclosing_class, walk_scope
from ..report import Result

FULL = {"Barrier", "barrier", "allreduce", "Allreduce", "allgather", "Allgather", "Allgatherv", "alltoall", "Alltoall", "Alltoallv"}
FROM_ROOT = {"bcast", "Bcast", "scatter", "Scatter", "Scatterv"}
TO_ROOT = {"gather", "Gather", "Gatherv", "reduce", "Reduce"}
SYNC = FULL | FROM_ROOT | TO_ROOT

ALL, ROOT, OTHER, TURN = "every process", "one process", "the other processes", "one process after another"
READ, WRITE, CREATE, REMOVE, RENAME = "read", "written", "created", "removed", "renamed"
CHANGES = {WRITE, CREATE, REMOVE, RENAME}
REPLACING = {CREATE, REMOVE, RENAME}

OPENERS = {"open", "File", "open_group", "open_h5py_mpi", "open_array", "open_consolidated", "DirectoryStore", "ZipStore", "NestedDirectoryStore", "group", "open_file", "open_text", "open_binary"}
OPEN_DEFAULT = {"open": "r", "File": "r", "open_group": "a", "open_array": "a", "group": "a"}
REMOVERS = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree"}
RENAMERS = {"os.rename", "os.replace", "os.renames", "shutil.move"}
COPIERS = {"shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "os.link", "os.symlink"}
MAKERS = {"create_dataset", "require_dataset", "create_group", "require_group", "create", "array", "zeros", "empty"}
IGNORED = {"log", "info", "debug", "warning", "warn", "error", "exception", "print", "critical", "isinstance", "len", "type", "id", "repr", "endswith", "startswith", "format", "split", "join", "exists", "isdir", "isfile", "dirname", "basename", "samefile", "stat", "guess_file_format", "check_file_format", "sleep", "append", "hasattr", "getattr"}
LOADERS = ("read", "load", "from_", "fetch")
SAVERS = ("write", "save", "to_", "dump", "store", "export", "copy_store")
MAXDEPTH = 7
OPEN = "#open"  # marks values that are open files, not names


class Ev:
    __slots__ = ("who", "kind", "path", "node", "f", "hb", "hg", "par", "choice")

    def __init__(self, who, kind, path, node, f, par=False, choice=frozenset()):
        self.who, self.kind, self.path, self.node, self.f, self.par, self.choice = who, kind, path, node, f, par, choice
        self.hb = self.hg = False

    def flagged(self, hb, hg):
        e = Ev(self.who, self.kind, self.path, self.node, self.f, self.par, self.choice)
        e.hb, e.hg = self.hb or hb, self.hg or hg
        return e

    def key(self):
        return (self.who, self.kind, self.path, id(self.node), self.hb, self.hg, self.par, self.choice)


class Seg:
    """pre: events before the first full synchronisation; post: after the last; thru: may finish without one; hb/hg: half syncs on the way."""

    def __init__(self):
        self.pre, self.post = {}, {}
        self.thru = True
        self.hb = self.hg = False  # every unsynchronised way through passes a half sync
        self.exits = False  # control does not reach the end
        self.choice = frozenset()  # what is known about the configuration afterwards
        self.who = None  # who goes on afterwards, if not all of those that entered

    @staticmethod
    def event(e):
        s = Seg()
        s.pre[e.key()] = s.post[e.key()] = e
        return s

    @staticmethod
    def sync(name):
        s = Seg()
        if name in FULL:
            s.thru = False
        elif name in FROM_ROOT:
            s.hb = True
        else:
            s.hg = True
        return s


def par_name(e):
    d = dotted(e)
    return d.split(".")[-1] if d else None


class Walk:
    def __init__(self, R, f, env, depth, stack, self_key=None, choice=frozenset()):
        self.choice = choice
        self.alone = False  # the object was made without a communicator
        self.R, self.f, self.env, self.depth, self.stack = R, f, env, depth, stack
        self.self_key = self_key
        self.rets = set()
        self.defs = {}
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs.setdefault(n.targets[0].id, []).append(n.value)

    # -- who executes ---------------------------------------------------------------------
    def is_rank(self, e, seen=()):
        if isinstance(e, ast.Attribute):
            return e.attr in ("rank", "_rank", "_host_rank", "host_rank")
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Attribute) and e.func.attr == "Get_rank"
        if isinstance(e, ast.IfExp):
            return self.is_rank(e.body, seen) or self.is_rank(e.orelse, seen)
        if isinstance(e, ast.Name) and e.id not in seen:
            if e.id in ("rank", "my_rank"):
                return True
            vs = self.defs.get(e.id)
            return bool(vs) and any(self.is_rank(v, seen + (e.id,)) for v in vs)
        return False

    def test(self, t, seen=()):
        """(who goes into the body, who goes into the else)."""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = t.left, t.comparators[0]
            if not self.is_rank(a) and self.is_rank(b):
                a, b = b, a
            if self.is_rank(a):
                if isinstance(b, ast.Constant) and b.value is None:
                    r = (TURN, ALL) if isinstance(t.ops[0], ast.IsNot) else (ALL, TURN)
                    return (ALL, ALL) if not (par_name(a) or "").endswith("host_rank") else r
                one = (ROOT, OTHER) if isinstance(b, ast.Constant) else (TURN, ALL)
                if isinstance(t.ops[0], ast.Eq):
                    return one
                if isinstance(t.ops[0], ast.NotEq) or isinstance(t.ops[0], ast.Gt) and isinstance(b, ast.Constant) and b.value == 0:
                    return one[::-1]
            return (ALL, ALL)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.test(t.operand, seen)[::-1]
        if isinstance(t, ast.BoolOp):
            parts = [self.test(v, seen) for v in t.values]
            if isinstance(t.op, ast.And):
                left = [p for v, p in zip(t.values, parts) if not self.has_comm(v)]
                if len(left) == 1:
                    return left[0]
                spec = [p for p in parts if p[0] != ALL]
                return (spec[0][0] if spec else ALL, ALL)
            rest = [p for v, p in zip(t.values, parts) if not self.no_comm(v)]
            if rest and all(p[0] != ALL for p in rest):
                return (rest[0][0], rest[0][1])
            spec = [p for p in rest if p[1] != ALL]
            return (ALL, spec[0][1] if spec else ALL)
        if isinstance(t, ast.IfExp):
            if self.no_comm(t.test) and isinstance(t.body, ast.Constant):
                return self.test(t.orelse, seen)
            if self.has_comm(t.test) and isinstance(t.orelse, ast.Constant):
                return self.test(t.body, seen)
            return (ALL, ALL)
        if self.is_rank(t):
            return (OTHER, ROOT)
        if isinstance(t, ast.Name) and t.id not in seen:
            vs = self.defs.get(t.id, [])
            if t.id in ("rank0", "is_root", "is_rank0") and not vs:
                return (ROOT, OTHER)
            out = {self.test(v, seen + (t.id,)) for v in vs}
            return out.pop() if len(out) == 1 else (ALL, ALL)
        if isinstance(t, ast.Attribute) or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute):
            a = t if isinstance(t, ast.Attribute) else t.func
            d = dotted(a)
            r = self.R.repo.resolve_expr(a, self.f.module, self.f) if d else None
            if d and d.endswith("mpitools.rank0"):
                return (ROOT, OTHER)
            c = enclosing_class(self.f)
            if d and d.split(".")[0] == "self" and d.count(".") == 1 and c is not None:
                if a.attr in seen or self.alone:
                    return (ALL, ALL)
                m = c.lookup(a.attr)
                if isinstance(m, FuncInfo):
                    body = [s for s in m.node.body if isinstance(s, ast.Return)]
                    if len(body) == 1 and body[0].value is not None:
                        return Walk(self.R, m, {}, self.depth, self.stack).test(body[0].value, seen + (a.attr,))
                    return (ALL, ALL)
                out = set()
                for k in [x for x in c.mro() if isinstance(x, ClassInfo)]:
                    for g in k.methods.values():
                        for n in walk_scope(g.node):
                            if isinstance(n, ast.Assign):
                                for tg in n.targets:
                                    if isinstance(tg, ast.Attribute) and tg.attr == a.attr and isinstance(tg.value, ast.Name) and tg.value.id == "self" and not isinstance(n.value, ast.Constant):
                                        out.add(Walk(self.R, g, {}, self.depth, self.stack).test(n.value, seen + (a.attr,)))
                return out.pop() if len(out) == 1 else (ALL, ALL)
            if isinstance(r, FuncInfo):
                body = [s for s in r.node.body if isinstance(s, ast.Return)]
                if len(body) == 1 and body[0].value is not None and a.attr not in seen:
                    return Walk(self.R, r, {}, self.depth, self.stack).test(body[0].value, seen + (a.attr,))
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            r = self.R.repo.resolve_expr(t.func, self.f.module, self.f)
            if isinstance(r, FuncInfo) and r.name not in seen:
                body = [s for s in r.node.body if isinstance(s, ast.Return)]
                if len(body) == 1 and body[0].value is not None:
                    return Walk(self.R, r, {}, self.depth, self.stack).test(body[0].value, seen + (r.name,))
        return (ALL, ALL)

    def no_comm(self, t):
        """The test holds only without several processes."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.has_comm(t.operand)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            n = par_name(t.left) or ""
            b = t.comparators[0]
            if n.endswith("comm") and isinstance(b, ast.Constant) and b.value is None:
                return isinstance(t.ops[0], (ast.Is, ast.Eq))
            if n.endswith("size") and isinstance(b, ast.Constant) and b.value in (1, 2):
                return isinstance(t.ops[0], (ast.Eq, ast.Lt, ast.LtE)) and not (b.value == 2 and not isinstance(t.ops[0], ast.Lt))
        return False

    def has_comm(self, t):
        """The test always holds where several processes take part."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.no_comm(t.operand)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            n = par_name(t.left) or ""
            b = t.comparators[0]
            if n.endswith("comm") and isinstance(b, ast.Constant) and b.value is None:
                return isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
            if n.endswith("size") and isinstance(b, ast.Constant) and b.value == 1:
                return isinstance(t.ops[0], (ast.Gt, ast.NotEq))
        n = par_name(t) or ""
        return n in ("distributed", "_distributed") or n.endswith("comm")

    # -- paths -----------------------------------------------------------------------------
    def path(self, e):
        """Keys of the files an expression (a name, an open file, a dataset in it) stands for."""
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return frozenset([f"{self.f.qualname}:{e.id}"])
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.split(".")[0] in ("self", "cls") and self.self_key:
                c = enclosing_class(self.f)
                m = c.lookup(e.attr) if c is not None and d.count(".") == 1 else None
                if isinstance(m, FuncInfo) and m.is_property and self.depth < MAXDEPTH:
                    body = [s for s in m.node.body if isinstance(s, ast.Return)]
                    if len(body) == 1 and body[0].value is not None:
                        return frozenset([f"{self.self_key}.{e.attr}"])
                return frozenset([f"{self.self_key}." + d.split(".", 1)[1]])
            if isinstance(e.value, ast.Name) and e.value.id in self.env or isinstance(e.value, ast.Subscript):
                return self.path(e.value)
            if d:
                return frozenset([f"{self.f.qualname}:{d}"])
            return self.path(e.value)
        if isinstance(e, ast.Subscript):
            if any(self.is_rank(x) for x in ast.walk(e.slice) if isinstance(x, ast.expr)):
                return frozenset()  # each process has its own part
            return self.path(e.value)
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                out += str(v.value) if isinstance(v, ast.Constant) else "{" + "|".join(sorted(self.path(v.value))) + "}"
            if len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue):
                return self.path(e.values[0].value)
            if any(self.is_rank(v.value) or not self.path(v.value) for v in e.values if isinstance(v, ast.FormattedValue)):
                return frozenset()
            return frozenset(["'" + out + "'"])
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Div, ast.Mod)):
            def s(x):
                return str(x.value) if isinstance(x, ast.Constant) else "{" + "|".join(sorted(self.path(x))) + "}"
            if any(not isinstance(x, ast.Constant) and (self.is_rank(x) or not self.path(x)) for x in (e.left, e.right)):
                return frozenset()
            return frozenset(["'" + s(e.left) + ("/" if isinstance(e.op, ast.Div) else "") + s(e.right) + "'"])
        if isinstance(e, ast.IfExp):
            return self.path(e.body) | self.path(e.orelse)
        if isinstance(e, (ast.Starred, ast.NamedExpr)):
            return self.path(e.value)
        if isinstance(e, ast.Call):
            n = self.cname(e)
            if self.R.rets.get(id(e)):
                return self.R.rets[id(e)]
            if n in ("str", "fspath", "Path", "abspath", "expanduser", "realpath", "PurePath", "decode") and e.args:
                return self.path(e.args[0])
            if n in ("join", "joinpath"):
                return frozenset(["'" + "/".join("|".join(sorted(self.path(a))) if not isinstance(a, ast.Constant) else str(a.value) for a in e.args) + "'"])
            r = self.R.repo.resolve_expr(e.func, self.f.module, self.f) if dotted(e.func) else None
            if isinstance(r, ClassInfo) and r.lookup("__enter__") is not None:
                return frozenset([f"{self.f.qualname}@{e.lineno}:{r.name}"])
            if n in OPENERS or n in ("ProcessSynchronizer", "ThreadSynchronizer"):
                out = frozenset()
                for a in [*e.args[:1], *[k.value for k in e.keywords if k.arg in ("store", "name", "path", "f", "synchronizer", "filename", "file")]]:
                    out |= self.path(a)
                if n not in ("open", "open_group", "File") and not out and isinstance(e.func, ast.Attribute):
                    out = self.path(e.func.value)
                return out | ({OPEN} if n in OPENERS else frozenset())
            if isinstance(e.func, ast.Attribute):
                return self.path(e.func.value) if isinstance(e.func.value, (ast.Name, ast.Subscript)) else frozenset()
            out = frozenset()
            g = r if isinstance(r, FuncInfo) else None
            if g is not None and e.args:
                return self.path(e.args[0])
            return out
        return frozenset()

    @staticmethod
    def cname(c):
        return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None

    # -- sequencing --------------------------------------------------------------------------
    def seq(self, a, b):
        self.R.cross(a.post.values(), b.pre.values(), self)
        o = Seg()
        o.pre.update(a.pre)
        if a.thru:
            for e in b.pre.values():
                x = e.flagged(a.hb, a.hg)
                o.pre[x.key()] = x
        o.post.update(b.post)
        if b.thru:
            for e in a.post.values():
                x = e.flagged(b.hb, b.hg)
                o.post[x.key()] = x
        o.thru = a.thru and b.thru
        o.hb, o.hg = a.hb or b.hb, a.hg or b.hg
        o.exits = a.exits or b.exits
        o.choice, o.who = a.choice | b.choice, b.who or a.who
        return o

    @staticmethod
    def join(a, b):
        o = Seg()
        for s in (a, b):
            o.pre.update(s.pre)
            o.post.update(s.post)
        live = [s for s in (a, b) if not s.exits] or [a, b]
        o.thru = any(s.thru for s in live)
        un = [s for s in live if s.thru]
        o.hb, o.hg = bool(un) and all(s.hb for s in un), bool(un) and all(s.hg for s in un)
        o.exits = a.exits and b.exits
        return o

    def block(self, body, who):
        o = Seg()
        keep = self.choice
        for st in body:
            s = self.stmt(st, who)
            o = self.seq(o, s)
            if s.exits:
                break
            self.choice |= s.choice
            if s.who is not None:
                who = s.who
        self.choice = keep
        return o

    def chosen(self, c, fn, *a):
        keep = self.choice
        self.choice = self.choice | c
        o = fn(*a)
        self.choice = keep
        return o

    def arms(self, *thunks):
        """Evaluate alternatives from the same bindings and merge what they bind."""
        start, outs, envs = dict(self.env), [], []
        for t in thunks:
            self.env.clear()
            self.env.update(start)
            o = t()
            outs.append(o)
            if not o.exits:
                envs.append(dict(self.env))
        self.env.clear()
        for e in envs or [start]:
            for k, v in e.items():
                self.env[k] = self.env.get(k, frozenset()) | v
        return outs

    def config(self, t):
        """What the two outcomes of a test say about the format, the build or the kind of an object."""
        no = frozenset()
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.config(t.operand)[::-1]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                n = par_name(b)
                if n in ("Zarr", "HDF5") and "format" in (par_name(a) or ""):
                    other = {"Zarr": "HDF5", "HDF5": "Zarr"}[n]
                    r = (frozenset([("format", n)]), frozenset([("format", other)]))
                    return r if isinstance(t.ops[0], (ast.Eq, ast.Is)) else r[::-1]
        if isinstance(t, ast.Attribute) and t.attr in ("mpi", "is_mpi"):
            return (frozenset([("mpi", "yes")]), frozenset([("mpi", "no")]))
        if isinstance(t, ast.Call) and self.cname(t) == "isinstance" and len(t.args) == 2:
            return (frozenset([("kind " + "|".join(sorted(self.path(t.args[0]))), ast.unparse(t.args[1]))]), no)
        return (no, no)

    def narrow(self, who, w):
        if w == ALL:
            return who
        if who == ALL:
            return w
        return who

    def stmt(self, st, who):
        if isinstance(st, ast.If):
            head = self.expr(st.test, who)
            return self.seq(head, self.branch(st.test, st.body, st.orelse, who))
        if isinstance(st, (ast.For, ast.AsyncFor)):
            head = self.expr(st.iter, who)
            self.bind(st.target, self.path(st.iter))
            body = self.loop(st.body, who)
            if not body.thru and isinstance(st.iter, ast.Call) and self.cname(st.iter) == "range" and len(st.iter.args) == 1:
                # the processes take turns, the first one first
                pre, body.pre = body.pre, {}
                for e in pre.values():
                    x = e.flagged(False, False)
                    x.who = ROOT if e.who == TURN else e.who
                    body.pre[x.key()] = x
            return self.seq(head, self.seq(body, self.block(st.orelse, who)))
        if isinstance(st, ast.While):
            head = self.expr(st.test, who)
            return self.seq(head, self.seq(self.loop(st.body, who), self.block(st.orelse, who)))
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.with_(st.items, st.body, who)
        if isinstance(st, ast.Try):
            o = self.block(st.body, who)
            o = self.seq(o, self.block(st.orelse, who)) if not o.exits else o
            for h in st.handlers:
                hs = self.block(h.body, who)
                if not hs.exits:
                    # the handler's actions may follow those of the body
                    self.R.cross(o.post.values(), hs.pre.values(), self)
                    o.pre.update(hs.pre)
                    o.post.update(hs.post)
            fin = self.block(st.finalbody, who)
            ex = o.exits
            o = self.seq(o, fin)
            o.exits = ex or fin.exits
            return o
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return Seg()
        if isinstance(st, ast.Raise):
            s = Seg()
            s.exits = True
            return s
        if isinstance(st, ast.Return):
            s = self.expr(st.value, who) if st.value is not None else Seg()
            if st.value is not None:
                self.rets |= self.path(st.value)
            s.exits = True
            return s
        if isinstance(st, (ast.Break, ast.Continue)):
            s = Seg()
            s.exits = True
            return s
        if isinstance(st, ast.Assign):
            s = self.expr(st.value, who)
            for t in st.targets:
                s = self.seq(s, self.store(t, who))
                self.bind(t, self.path(st.value))
            return s
        if isinstance(st, ast.AnnAssign):
            s = self.expr(st.value, who) if st.value is not None else Seg()
            if st.value is not None:
                self.bind(st.target, self.path(st.value))
            return s
        if isinstance(st, ast.AugAssign):
            return self.seq(self.expr(st.value, who), self.store(st.target, who))
        if isinstance(st, ast.Delete):
            return Seg()
        if isinstance(st, ast.Match):
            head = self.expr(st.subject, who)
            o = None
            for c in st.cases:
                b = self.block(c.body, who)
                o = b if o is None else self.join(o, b)
            return self.seq(head, o or Seg())
        s = Seg()
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                s = self.seq(s, self.expr(e, who))
        return s

    def bind(self, t, keys):
        if isinstance(t, ast.Name):
            if t.id in self.env and keys and self.depth >= 0 and isinstance(t.ctx, ast.Store):
                self.env[t.id] = keys
            else:
                self.env[t.id] = keys
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, keys)

    def store(self, t, who):
        """Writing into an item of an open file or stored dataset."""
        if isinstance(t, ast.Subscript) and self.is_store(t.value):
            return self.acts(who, WRITE, self.path(t.value), t)
        return Seg()

    def is_store(self, e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        return isinstance(e, ast.Name) and OPEN in self.env.get(e.id, ()) or isinstance(e, ast.Name) and e.id in self.R.handles.get(self.f, ())

    def acts(self, who, kind, keys, node, par=False):
        s = Seg()
        for k in keys:
            self.R.nact += 1
            if k == OPEN or self.R.own_attr(k, self.f):
                continue
            e = Ev(who, kind, k, node, self.f, par, self.choice)
            s.pre[e.key()] = s.post[e.key()] = e
            self.R.log.append(e)
        return s

    def branch(self, test, body, orelse, who):
        if isinstance(test, ast.Call) and self.cname(test) == "isinstance" and OPEN in self.path(test.args[0]):
            if (dotted(test.args[1]) or "") == "str":
                return self.block(orelse, who)
        if isinstance(test, ast.Attribute) and test.attr == "opened":
            return self.block(body, who)
        if self.no_comm(test):
            return self.block(orelse, who)
        if self.has_comm(test) and not self.no_comm(test):
            return self.block(body, who)
        w = self.test(test)
        if w == (ALL, ALL):
            ca, cb = self.config(test)
            if not compatible(ca, self.choice):
                return self.block(orelse, who)
            if not compatible(cb, self.choice) or cb == ca != frozenset():
                return self.block(body, who)
            a, b = self.arms(lambda: self.chosen(ca, self.block, body, who), lambda: self.chosen(cb, self.block, orelse, who))
            o = self.join(a, b)
            if a.exits and not b.exits:
                o.choice, o.who = cb, b.who
            elif b.exits and not a.exits:
                o.choice, o.who = ca, a.who
            return o
        self.R.guards += 1
        a, b = self.arms(lambda: self.block(body, self.narrow(who, w[0])), lambda: self.block(orelse, self.narrow(who, w[1])))
        if who == ALL:
            # the arms run at the same time on different processes
            self.R.cross(a.pre.values(), b.pre.values(), self, concurrent=True)
            self.R.cross(a.post.values(), b.post.values(), self, concurrent=True)
        o = Seg()
        for s in (a, b):
            o.pre.update(s.pre)
            o.post.update(s.post)
        live = [s for s in (a, b) if not s.exits]
        o.thru = all(s.thru for s in live) if live else True
        o.hb, o.hg = any(s.hb for s in live), any(s.hg for s in live)
        o.exits = not live
        if a.exits and not b.exits:
            o.who = self.narrow(who, w[1])
        elif b.exits and not a.exits:
            o.who = self.narrow(who, w[0])
        return o

    def loop(self, body, who):
        o = self.block(body, who)
        o.exits = False
        self.R.cross(o.post.values(), o.pre.values(), self, again=True)
        return o

    def with_(self, items, body, who):
        if not items:
            return self.block(body, who)
        it, rest = items[0], items[1:]
        head = self.expr(it.context_expr, who)
        keys = self.path(it.context_expr)
        c = it.context_expr
        leave = Seg()
        if isinstance(c, ast.Call) and dotted(c.func):
            r = self.R.repo.resolve_expr(c.func, self.f.module, self.f)
            if isinstance(r, ClassInfo) and r.lookup("__enter__") is not None and self.depth < MAXDEPTH:
                me = f"{self.f.qualname}@{c.lineno}:{r.name}"
                binding = self.init_binding(r, c)
                init = r.lookup("__init__")
                alone = init is not None and "comm" in init.all_params() and not self.given(init, c, "comm")
                en = self.method(r.lookup("__enter__"), me, who, binding, alone)
                head = self.seq(head, en[0])
                keys = en[1] or frozenset([me])
                ex = r.lookup("__exit__")
                if ex is not None:
                    leave = self.method(ex, me, who, binding, alone)[0]
            elif self.cname(c) == "open_h5py_mpi" and not any(k.arg == "use_mpi" for k in c.keywords):
                leave = Seg.sync("Barrier")
        if it.optional_vars is not None:
            self.bind(it.optional_vars, keys)
        inner = self.with_(rest, body, who)
        o = self.seq(head, inner)
        ex = o.exits
        o = self.seq(o, leave)
        o.exits = ex
        return o

    @staticmethod
    def given(init, call, name):
        """The call passes this argument, and not as None."""
        ps = init.bound_params()
        v = [k.value for k in call.keywords if k.arg == name or k.arg is None]
        if name in ps and len(call.args) > ps.index(name):
            v.append(call.args[ps.index(name)])
        return any(not (isinstance(x, ast.Constant) and x.value is None) for x in v) or any(isinstance(a, ast.Starred) for a in call.args)

    def init_binding(self, cls, call):
        """Attributes of a new object that simply hold constructor arguments."""
        i = cls.lookup("__init__")
        out = {}
        if i is None:
            return out
        ps = i.bound_params()
        args = {}
        for p, a in zip(ps, call.args):
            args[p] = self.path(a)
        for k in call.keywords:
            if k.arg:
                args[k.arg] = self.path(k.value)
        for n in walk_scope(i.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
                if dotted(n.targets[0]).startswith("self.") and n.value.id in args:
                    out[n.targets[0].attr] = args[n.value.id]
        return out

    def method(self, m, me, who, binding, alone=False):
        env = {}
        w = Walk(self.R, m, env, self.depth + 1, [*self.stack, m], self_key=me, choice=self.choice)
        w.alone = alone
        if m in self.stack:
            return Seg(), frozenset()
        s = w.block(m.node.body, who)
        s.exits, s.who, s.choice = False, None, frozenset()
        keys = w.rets
        sub = {f"{me}.{a}": v for a, v in binding.items()}
        return self.rename(s, sub), frozenset(x for k in keys for x in sub.get(k, [k]))

    @staticmethod
    def rename(s, sub):
        if not sub:
            return s
        o = Seg()
        o.thru, o.hb, o.hg, o.exits = s.thru, s.hb, s.hg, s.exits
        for name in ("pre", "post"):
            for e in getattr(s, name).values():
                for k in sub.get(e.path, [e.path]):
                    x = Ev(e.who, e.kind, k, e.node, e.f, e.par, e.choice)
                    x.hb, x.hg = e.hb, e.hg
                    getattr(o, name)[x.key()] = x
        return o

    # -- expressions ------------------------------------------------------------------------
    def expr(self, e, who):
        if e is None or isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
            return Seg()
        if isinstance(e, ast.IfExp):
            return self.seq(self.expr(e.test, who), self.branch(e.test, [ast.Expr(e.body)], [ast.Expr(e.orelse)], who))
        if isinstance(e, ast.BoolOp):
            return self.join(Seg(), self.expr_list(e.values, who)) if len(e.values) > 1 else Seg()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            o = Seg()
            for g in e.generators:
                o = self.seq(o, self.expr(g.iter, who))
            els = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            inner = self.expr_list(els, who)
            self.R.cross(inner.post.values(), inner.pre.values(), self, again=True)
            return self.seq(o, inner)
        if isinstance(e, ast.Call):
            return self.call(e, who)
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load):
            s = self.expr_list([e.value, e.slice], who)
            if self.is_store(e.value) and isinstance(e.slice, (ast.Slice, ast.Tuple)):
                s = self.seq(s, self.acts(who, READ, self.path(e.value), e))
            return s
        return self.expr_list([c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)], who)

    def expr_list(self, es, who):
        o = Seg()
        for x in es:
            o = self.seq(o, self.expr(x, who))
        return o

    def mode(self, e, n):
        m = None
        cand = list(e.args[1:2]) + [k.value for k in e.keywords if k.arg == "mode"]
        if isinstance(e.func, ast.Attribute) and not e.args and n == "open":
            cand = [k.value for k in e.keywords if k.arg == "mode"]
        if not cand:
            d = dotted(e.func) or ""
            return "a" if d == "zarr.open" else OPEN_DEFAULT.get(n, "r")
        vals = []
        stack = [cand[-1]]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                vals.append(x.value)
            elif isinstance(x, ast.IfExp):
                stack += [x.body, x.orelse]
            elif isinstance(x, ast.Name) and x.id in self.defs and len(vals) < 8:
                stack += self.defs[x.id]
            else:
                return "w"
        for m in ("w", "a", "x", "r+"):
            if any(v.startswith(m[0]) and ("+" in v or m != "r+") for v in vals):
                return m
        return "r"

    def call(self, e, who):
        pre = Seg()
        n = self.cname(e)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Call, ast.Subscript)):
            pre = self.expr(e.func.value, who)
        for a in [*e.args, *[k.value for k in e.keywords]]:
            pre = self.seq(pre, self.expr(a.value if isinstance(a, ast.Starred) else a, who))
        return self.seq(pre, self.effect(e, n, who))

    def effect(self, e, n, who):
        d = dotted(e.func) or ""
        if isinstance(e.func, ast.Attribute) and n in SYNC:
            base = par_name(e.func.value) or ""
            if base.lower().endswith("comm") or base in ("mpitools", "world", "_world", "COMM_WORLD", "MPI") or n in ("Barrier", "allreduce", "Allreduce", "allgather"):
                self.R.nsync += 1
                return Seg.sync(n)
        if isinstance(e.func, ast.Name) and n in ("barrier", "bcast", "allreduce"):
            self.R.nsync += 1
            return Seg.sync(n)
        q = self.qual(e)
        if q in ("subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "os.system"):
            return self.acts(who, WRITE, self.mentioned(e), e)
        if q == "os.open":
            return self.acts(who, WRITE, self.path(e.args[0]) if e.args else (), e)
        if q in REMOVERS:
            return self.acts(who, REMOVE, self.path(e.args[0]) if e.args else (), e)
        if q in RENAMERS and len(e.args) >= 2:
            return self.seq(self.acts(who, RENAME, self.path(e.args[0]), e), self.acts(who, CREATE, self.path(e.args[1]), e))
        if q in COPIERS and len(e.args) >= 2:
            return self.seq(self.acts(who, READ, self.path(e.args[0]), e), self.acts(who, CREATE, self.path(e.args[1]), e))
        if isinstance(e.func, ast.Attribute) and n in ("unlink", "rmdir", "touch", "write_text", "write_bytes") and not self.callees(e):
            return self.acts(who, REMOVE if n in ("unlink", "rmdir") else CREATE, self.path(e.func.value), e)
        if isinstance(e.func, ast.Attribute) and n in ("rename", "replace") and len(e.args) == 1 and q not in RENAMERS:
            return Seg()
        if n in IGNORED or n in ("bcast",):
            return Seg()
        if n in OPENERS and n != "group":
            keys = self.path(e)
            par = n == "open_h5py_mpi" and not any(k.arg == "use_mpi" for k in e.keywords)
            m = self.mode(e, n)
            if n == "DirectoryStore":
                return Seg()
            if isinstance(e.func, ast.Attribute) and n == "open" and not e.args and not e.keywords:
                return Seg()
            return self.acts(who, CREATE if m in ("w", "a", "x") else WRITE if m == "r+" else READ, keys, e, par)
        if n in MAKERS and isinstance(e.func, ast.Attribute) and self.is_store(e.func.value):
            return self.acts(who, CREATE, self.path(e.func.value), e, par=self.parallel(e.func.value))
        if n == "_create_or_get_dset" or n in ("require_dataset",):
            a = e.args[0] if e.args else None
            return self.acts(who, CREATE, self.path(a), e, par=self.parallel(a))
        if n == "copy_store" and len(e.args) >= 2:
            return self.acts(who, CREATE, self.path(e.args[1]), e)
        if n == "close" and isinstance(e.func, ast.Attribute) and self.parallel(e.func.value):
            return Seg.sync("Barrier")  # closing a file that is open on all processes is collective
        if n in ("write_direct", "read_direct") and isinstance(e.func, ast.Attribute):
            return self.acts(who, WRITE if n == "write_direct" else READ, self.path(e.func.value), e)
        fs = self.callees(e)
        if fs and self.depth < MAXDEPTH:
            o = None
            for g in fs:
                if g in self.stack:
                    continue
                c = frozenset([(f"call {id(e)}", g.qualname)]) if len(fs) > 1 else frozenset()
                s = self.chosen(c, self.inline, g, e, who)
                o = s if o is None else self.join(o, s)
            if o is not None:
                return o
            return Seg()
        if isinstance(e.func, ast.Attribute) and not fs:
            # an unresolved routine that is given the name of a file
            kind = READ if n.startswith(LOADERS) else WRITE if n.startswith(SAVERS) else None
            if kind is not None:
                keys = frozenset()
                for a in e.args[:1]:
                    keys |= self.path(a)
                return self.acts(who, kind, keys, e)
        return Seg()

    def mentioned(self, e, seen=None):
        """Files named anywhere in a command line."""
        seen = set() if seen is None else seen
        out = frozenset()
        for a in [*e.args, *[k.value for k in e.keywords]] if isinstance(e, ast.Call) else [e]:
            for x in ast.walk(a):
                if isinstance(x, ast.Name) and x.id not in seen and x.id not in ("self", "cls"):
                    seen.add(x.id)
                    out |= self.env.get(x.id, frozenset())
                    for v in self.defs.get(x.id, []):
                        out |= self.mentioned(v, seen)
        return out

    def parallel(self, e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        if isinstance(e, ast.Name):
            for v in self.defs.get(e.id, []):
                if isinstance(v, ast.Call) and self.cname(v) == "open_h5py_mpi" and not any(k.arg == "use_mpi" for k in v.keywords):
                    return True
        return False

    def qual(self, e):
        d = dotted(e.func)
        if not d:
            return None
        head, _, rest = d.partition(".")
        imp = {}
        imp.update(self.f.module.imports)
        imp.update(self.R.repo.local_imports(self.f) or {})
        t = imp.get(head)
        if isinstance(t, tuple):
            t = ".".join(x for x in t[1:] if x)
        if t is None:
            return d
        return f"{t}.{rest}" if rest else str(t)

    def callees(self, e):
        fn = e.func
        d = dotted(fn)
        R = self.R
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            c = enclosing_class(self.f)
            m = c.lookup_after(c, fn.attr) if c is not None else None
            return [m] if m else []
        if d:
            p = d.split(".")
            c = enclosing_class(self.f)
            if p[0] in ("self", "cls") and len(p) == 2 and c is not None:
                m = c.lookup(p[1])
                out = [m] if isinstance(m, FuncInfo) else []
                return [g for g in out if R.matters(g)]
            r = R.repo.resolve_expr(fn, self.f.module, self.f)
            if isinstance(r, FuncInfo):
                return [r] if R.matters(r) else []
            if isinstance(r, ClassInfo):
                return []
        if isinstance(fn, ast.Attribute):
            return [g for g in R.by_name(fn.attr) if R.matters(g)]
        return []

    def inline(self, g, e, who):
        env = {}
        if g.parent is not None:
            env.update(self.env)
        ps = g.bound_params() if g.is_method and not (g.is_static) else g.params()
        if g.is_method and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and isinstance(self.R.repo.resolve_expr(e.func.value, self.f.module, self.f), ClassInfo):
            if not g.is_static and not g.is_classmethod:
                ps = g.params()
        for p in g.all_params():
            env[p] = frozenset()
        for p, a in zip(ps, e.args):
            if isinstance(a, ast.Starred):
                break
            env[p] = self.path(a)
        for k in e.keywords:
            if k.arg in env:
                env[k.arg] = self.path(k.value)
        me = None
        if g.is_method and isinstance(e.func, ast.Attribute):
            b = dotted(e.func.value)
            me = self.self_key if b in ("self", "cls") else f"{self.f.qualname}:{b}"
        w = Walk(self.R, g, env, self.depth + 1, [*self.stack, g], self_key=me, choice=self.choice)
        s = w.block(g.node.body, who)
        s.exits, s.who, s.choice = False, None, frozenset()
        self.R.rets[id(e)] = frozenset(w.rets)
        return s


class R:
    def __init__(self, repo):
        self.repo = repo
        self.nact = self.nsync = self.guards = self.pairs = 0
        self.found = {}
        self.handles = {}
        self._matters = {}
        self._own = {}
        self.rets = {}
        self.log = []
        self._names = {}
        for f in repo.all_functions():
            if f.is_method:
                self._names.setdefault(f.name, []).append(f)
        for f in repo.all_functions():
            self.handles[f] = self.find_handles(f)
        self.top = None
        self.region_sync = False

    def own_attr(self, key, f):
        """The attribute holds a name that contains the rank: every process has its own file."""
        c = enclosing_class(f)
        if c is None or "." not in key:
            return False
        k = (c.qualname, key.rsplit(".", 1)[1])
        if k not in self._own:
            self._own[k] = any(
                isinstance(n, ast.Assign)
                and any(isinstance(t, ast.Attribute) and t.attr == k[1] for t in n.targets)
                and any(isinstance(x, ast.FormattedValue) and (par_name(x.value) or "").endswith("rank") for x in ast.walk(n.value))
                for g in c.methods.values()
                for n in walk_scope(g.node)
            )
        return self._own[k]

    def by_name(self, n):
        if n in ("open", "close", "get", "update", "copy", "keys", "items", "values", "run", "next", "setup", "finish", "process", "add", "pop"):
            return []
        return self._names.get(n, [])

    def find_handles(self, f):
        """Names in a function that hold open files, groups in them or stored datasets."""
        out = set()
        for p in f.all_params():
            if p in ("fh", "h5group", "dest", "group", "h5item", "f") and f.module.rel.endswith(("_memh5.py", "mpiarray.py", "fileformats.py")):
                out.add(p)
        for _ in range(3):
            for n in walk_scope(f.node):
                pairs = []
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    pairs.append((n.targets[0], n.value))
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    pairs += [(i.optional_vars, i.context_expr) for i in n.items if i.optional_vars is not None]
                for t, v in pairs:
                    if not isinstance(t, ast.Name):
                        continue
                    if isinstance(v, ast.Call):
                        nm = Walk.cname(v)
                        if nm in OPENERS or nm == "_create_or_get_dset":
                            out.add(t.id)
                        elif nm in MAKERS and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in out:
                            out.add(t.id)
                    elif isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id in out and not isinstance(v.slice, (ast.Slice, ast.Tuple)):
                        out.add(t.id)
                    elif isinstance(v, ast.Name) and v.id in out:
                        out.add(t.id)
        if f.parent is not None:
            out |= self.handles.get(f.parent) or self.find_handles(f.parent)
        return out

    def matters(self, g, depth=0):
        """The routine (or one it calls) touches files or synchronises."""
        if g in self._matters:
            return self._matters[g]
        self._matters[g] = False
        hit = False
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                nm = Walk.cname(n)
                if nm in SYNC or nm in OPENERS or nm in ("remove", "rmtree", "rename", "replace", "unlink", "copy_store", "_create_or_get_dset", "to_file", "to_hdf5", "to_zarr", "write_direct") and nm != "replace":
                    hit = True
                    break
        if not hit and depth < 4:
            for n in walk_scope(g.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    r = self.repo.resolve_expr(n.func, g.module, g) if d else None
                    if d and d.startswith("self.") and d.count(".") == 1 and enclosing_class(g) is not None:
                        r = enclosing_class(g).lookup(d.split(".")[1])
                    if isinstance(r, FuncInfo) and self.matters(r, depth + 1):
                        hit = True
                        break
        self._matters[g] = hit
        return hit

    def cross(self, xs, ys, w, concurrent=False, again=False):
        xs, ys = list(xs), list(ys)
        for a in xs:
            for b in ys:
                if a.path != b.path or not compatible(a.choice, b.choice):
                    continue
                self.pairs += 1
                if a.kind not in CHANGES and b.kind not in CHANGES:
                    continue
                if not self.apart(a, b, again):
                    continue
                if not concurrent:
                    hb, hg = a.hb or b.hb, a.hg or b.hg
                    if hb and a.who == ROOT:
                        continue
                    if hg and b.who == ROOT:
                        continue
                self.report(a, b, w, concurrent)

    @staticmethod
    def apart(a, b, again):
        """The two actions are carried out by different processes, not all of them by each."""
        if a.who == b.who:
            return a.who == TURN and a.node is b.node and again or a.who == TURN and a.node is not b.node and again
        if a.who == ALL and b.who == ALL:
            return False
        return True

    def report(self, a, b, w, concurrent):
        def what(e):
            return f"{short(e.path)} is {e.kind} by {e.who} ({e.f.module.rel}:{getattr(e.node, 'lineno', 0)})"
        key = (id(a.node), id(b.node), a.who, b.who)
        rel = "while" if concurrent else "and then, without waiting,"
        self.found.setdefault(key, (b.f, b.node, f"{what(a)} {rel} {what(b)}", "not-synchronised"))

    def top_level(self, f):
        w = Walk(self, f, {p: frozenset([f"{f.qualname}:{p}"]) for p in f.all_params()}, 0, [f], self_key=f"{f.qualname}:self" if f.is_method else None)
        n0 = self.nsync
        self.log = []
        w.block(f.node.body, ALL)
        if self.nsync > n0:
            for e in self.log:
                if e.who in (ALL, OTHER) and e.kind in REPLACING and not e.par:
                    self.found.setdefault(
                        (id(e.node), e.kind, e.who),
                        (e.f, e.node, f"{short(e.path)} is {e.kind} by {e.who}, not by one process for all", "changed-by-all"),
                    )


def compatible(a, b):
    if not a or not b:
        return True
    d = dict(a)
    return all(d.get(k, v) == v for k, v in b)


def short(path):
    return path.split(":")[-1] if not path.startswith("'") else path


GOOD = """
import os
import h5py


def write(comm, fname, data):
    if comm.rank == 0:
        with h5py.File(fname, "w") as fh:
            fh.create_dataset("x", data=0)
    comm.Barrier()
    for turn in range(comm.size):
        if turn == comm.rank:
            with h5py.File(fname, "r+") as fh:
                fh["x"][:] = data
        comm.Barrier()
    if comm.rank == 0:
        os.rename(fname, fname + ".done")
"""


def selftest():
    def n(src):
        r = R(Repo(sources={"caput/__init__.py": "", "caput/x.py": src}))
        for f in r.repo.all_functions():
            r.top_level(f)
        return len(r.found)

    yield "clean", n(GOOD) == 0
    first = GOOD.replace("data=0)\n    comm.Barrier()\n", "data=0)\n")
    yield "first in turn", n(first) == 0
    yield "no wait after creation", n(first.replace("for turn in range(comm.size)", "for turn in range(1, comm.size)")) > 0
    yield "no turns", n(GOOD.replace("        comm.Barrier()\n", "")) > 0
    yield "renamed too early", n(GOOD.replace("        comm.Barrier()\n    if", "    if")) > 0
    yield "half barrier", n(GOOD.replace("        comm.Barrier()\n    if", "        comm.bcast(0)\n    if")) > 0
    yield "broadcast after creation", n(GOOD.replace("data=0)\n    comm.Barrier()\n", "data=0)\n    comm.bcast(0)\n")) == 0
    yield "created by all", n(GOOD.replace("comm.rank == 0", "comm.size > 0")) > 0


def run(repo: Repo, tier="quick"):
    res = Result()
    r = R(repo)
    n = 0
    for f in repo.all_functions():
        if f.parent is not None or not r.matters(f) or ".tests" in f.module.name:
            continue
        n += 1
        r.top_level(f)
    for (f, node, msg, rule) in r.found.values():
        res.add(rule, f.qualname, msg.split(" (")[0] + " / " + msg.split(" is ")[-1].split(" (")[0], f.loc(node), msg)
    res.stats = {"routines": n, "file_actions": r.nact, "synchronisations": r.nsync, "rank_guards": r.guards, "pairs_compared": r.pairs}
    res.floors = {"routines": 20, "file_actions": 60, "synchronisations": 20, "rank_guards": 8}
    res.explanation = (
        "Every routine that reaches a file-system or stored-dataset action was read as the sequence of its events, callees and context managers in place, "
        "each with the set of processes that perform it; every two actions on one symbolic name by different processes, at least one of which changes it, "
        "were required to have a synchronisation of all those processes between them, and every creation, renaming or removal to be done by one process."
    )
    return res
