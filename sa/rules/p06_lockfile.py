"""P06: lock / temporary name / atomic rename protocol."""

import ast

from ..core import AnalysisError, ClassInfo, FuncInfo
from ..flow import ANY_EXC, FALSE, NONE, TRUE, Budget, Client, Engine, State, const, mk
from ..report import Result

LOCK = "caput.memdata.lock_file"
REMOVE = {"os.remove", "os.unlink", "os.rmdir", "shutil.rmtree"}
RENAME = {"os.rename", "os.replace"}
COPY = {"shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree", "shutil.move"}
WRITE_MODES = set("wax+")


def strip(t):
    """str(x) / os.fspath(x) / pathlib.Path(x) name the same file."""
    while True:
        if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] in ("str", "os.fspath", "pathlib.Path", "os.path.abspath", "os.path.normpath") and t.a[2]:
            t = t.a[2][0]
        else:
            return t


class FS(Client):
    """mon: tuple of filesystem events (kind, path term[, path term])."""

    max_states = 64
    max_depth = 6

    def __init__(self):
        self.ops = set()

    def initial(self, f):
        return ()

    def ev(self, st, *e):
        s = st.copy()
        s.mon = (*s.mon, e)
        return s

    def on_call(self, eng, st, node, fn, args, kws, callee):
        d = fn.a[0] if fn.k == "g" and isinstance(fn.a[0], str) else None
        out = mk("unk", "fs", id(node))
        kw = dict(kws)
        if d == "open" or d == "os.open" or d == "io.open":
            p = strip(args[0] if args else kw.get("file", NONE))
            m = args[1] if len(args) > 1 else kw.get("mode", const("r"))
            write = not (m.k == "const" and isinstance(m.a[1], str) and not (WRITE_MODES & set(m.a[1])))
            self.ops.add((eng.func.qualname, node.lineno))
            return ([(self.ev(st, "create" if write else "read", p), mk("call", id(node), fn, tuple(args), tuple(kws)))], [st])
        if d in REMOVE:
            p = strip(args[0])
            self.ops.add((eng.func.qualname, node.lineno))
            s = self.ev(st, "remove", p)
            return ([(s, NONE)], [(s, mk("exc", "FileNotFoundError")), (s, mk("exc", "OSError"))])
        if d in RENAME:
            self.ops.add((eng.func.qualname, node.lineno))
            return ([(self.ev(st, "rename", strip(args[0]), strip(args[1])), NONE)], [(self.ev(st, "rename-failed", strip(args[0]), strip(args[1])), mk("exc", "OSError"))])
        if d in COPY:
            self.ops.add((eng.func.qualname, node.lineno))
            return ([(self.ev(st, "copy", strip(args[0]), strip(args[1])), NONE)], [(self.ev(st, "copy", strip(args[0]), strip(args[1])), ANY_EXC)])
        if fn.k == "attr" and fn.a[1] in ("unlink", "touch", "rename", "replace", "write_text", "write_bytes", "rmdir") and fn.a[0].k != "self":
            p = strip(fn.a[0])
            self.ops.add((eng.func.qualname, node.lineno))
            k = {"unlink": "remove", "rmdir": "remove", "touch": "create", "write_text": "create", "write_bytes": "create"}.get(fn.a[1], "rename")
            e = (k, p) if k != "rename" else (k, p, strip(args[0]))
            s = self.ev(st, *e)
            return ([(s, NONE)], [(s if k == "remove" else st, mk("exc", "OSError"))])
        if d and d.startswith(("os.", "shutil.")) and not d.startswith("os.path.") and d not in ("os.fspath", "os.getpid", "os.getcwd"):
            p = strip(args[0]) if args else NONE
            s = self.ev(st, d, p)
            return ([(s, out)], [s])
        return None


def same_dir(t, final):
    """Is t in the directory of `final` by construction?"""
    if t.k == "bin" and t.a[0] == "Add":
        return t.a[1] is final or same_dir(t.a[1], final)
    if t.k == "fstr" and t.a[0]:
        return t.a[0][0] is final or any(_dirname(x, final) for x in t.a[0][:1])
    if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] == "os.path.join" and t.a[2]:
        return _dirname(t.a[2][0], final)
    if t.k == "phi":
        return all(same_dir(x, final) for x in t.a[0])
    return False


def _dirname(x, final):
    x = strip(x)
    if x.k == "call" and x.a[1].k == "g" and x.a[1].a[0] == "os.path.dirname":
        return strip(x.a[2][0]) is final
    if x.k == "item" and x.a[0].k == "call" and x.a[0].a[1].k == "g" and x.a[0].a[1].a[0] == "os.path.split":
        return strip(x.a[0].a[2][0]) is final and x.a[1] is const(0)
    return False


def run(repo, tier):
    res = Result(stats={"scenarios": 0, "paths": 0, "filesystem_operations": 0, "use_sites": 0})
    cls = repo.cls(LOCK)
    init, enter, exit_ = cls.lookup("__init__"), cls.lookup("__enter__"), cls.lookup("__exit__")
    if enter is None or exit_ is None or init is None:
        raise AnalysisError("lock_file is no longer a context manager class")
    q = cls.qualname
    c = FS()
    obj = mk("new", 1, cls)
    F = mk("param", "filename")
    for comm in (NONE, mk("param", "comm")):
        for preserve in (TRUE, FALSE):
            eng = Engine(repo, c)
            bind = {init.params()[0]: obj, "comm": comm, "preserve": preserve}
            o = eng.run(init, bind=bind, mon=())
            for s0, _ in o.ret:
                if comm is not NONE and eng.is_none(s0, comm) is True:
                    continue  # the serial case again
                for e in s0.mon:
                    res.add("effect-in-constructor", q, e[0], init.loc(), "constructing the lock touches the file system")
                eng = Engine(repo, c)
                st = State({enter.params()[0]: obj}, dict(s0.heap), dict(s0.facts), ())
                o1 = eng.run_body(enter, [st])
                for s1, tmp in o1.ret:
                    rank0 = bool(s1.mon)
                    # the process acting is the one that created the lock
                    created = [e[1] for e in s1.mon if e[0] == "create"]
                    other = [e for e in s1.mon if e[0] not in ("create", "read")]
                    for e in other:
                        res.add("enter-effect", q, e[0], enter.loc(), f"__enter__ performs {e[0]} before any data is written")
                    T = strip(tmp)
                    if is_final(T, F) or T.k == "const":
                        res.add("final-name-handed-out", q, "tmp", enter.loc(), "the context yields the final name, so data is written in place")
                    elif not same_dir(T, F):
                        res.add("temporary-not-beside-final", q, "tmp", enter.loc(), f"the temporary name {T!r} is not in the directory of the final file by construction, so the move is not one atomic rename")
                    for p in created:
                        if p is F or p is T:
                            res.add("lock-overlaps-data", q, "lock", enter.loc(), "the lock file has the name of the data file")
                    facts_rank = self_rank(s1, obj)
                    if comm is NONE and not created:
                        res.add("no-lock-created", q, "serial", enter.loc(), "without a communicator no lock file is created")
                    if comm is not NONE and facts_rank is True and not created:
                        res.add("no-lock-created", q, "rank0", enter.loc(), "the designated process does not create a lock file")
                    if comm is not NONE and facts_rank is None and not created:
                        res.add("no-lock-created", q, "parallel", enter.loc(), "with a communicator a path creates no lock although nothing tells that another process does")
                    if comm is not NONE and facts_rank is not True and s1.mon:
                        res.add("lock-by-every-process", q, "enter", enter.loc(), "a process other than the designated one touches the lock")
                    for raised in (False, True):
                        res.stats["scenarios"] += 1
                        eng = Engine(repo, c)
                        ps = exit_.all_params()
                        if raised:
                            vals = [obj, mk("excinfo", "type"), mk("excinfo", "value"), mk("excinfo", "tb")]
                        else:
                            vals = [obj, NONE, NONE, NONE]
                        env = eng.bind(exit_, s1, vals, [], None)
                        facts = dict(s1.facts)
                        if raised:
                            for v in vals[1:3]:
                                facts[v] = True
                                facts[mk("cmp", "is", v, NONE)] = False
                        st = State(env, dict(s1.heap), facts, ())
                        o2 = eng.run_body(exit_, [st])
                        ends = [(s, v, None) for s, v in o2.ret] + [(s, None, e) for s, e in o2.exc]
                        res.stats["paths"] += len(ends)
                        for s2, val, exc in ends:
                            judge(res, eng, q, exit_, s2, val, exc, raised, preserve is TRUE, T, F, created, facts_rank, comm is NONE)
    res.stats["filesystem_operations"] = len(c.ops)
    # use sites: inside the context only the yielded name is written
    for f in repo.all_functions():
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.With, ast.AsyncWith)):
                continue
            if repo.func_of_node and _owner(repo, n) is not f:
                continue
            for it in n.items:
                ce = it.context_expr
                if isinstance(ce, ast.Call) and repo.resolve_expr(ce.func, f.module, f) is cls:
                    use_site(repo, res, f, n, it, ce)
    res.floors = {"scenarios": 8, "filesystem_operations": 4, "use_sites": 1}
    res.explanation = (
        "The lock context manager's entry and exit were walked on every path for every combination of serial/parallel, designated/other "
        "process, preserve on/off, body raised or not, and each file-system call failing or not; the resulting sequences of file-system "
        "events on the (symbolic) lock, temporary and final names were compared with the protocol."
    )
    return res


def _is_rank(t):
    return t.k == "attr" and t.a[1] == "rank" or t.k == "call" and t.a[1].k == "attr" and t.a[1].a[1] == "Get_rank"


def self_rank(st, obj):
    """Outcome of the designated-process test (rank 0) on this path, if it was taken."""
    zero = const(0)
    for t, v in st.facts.items():
        if _is_rank(t):
            return not v
        if t.k == "cmp" and len(t.a) == 3:
            op, x, y = t.a
            if (_is_rank(x) and y is zero) or (_is_rank(y) and x is zero):
                if op == "==" or op == "is":
                    return v
                if op in ("!=", "is not") or (op == ">" and _is_rank(x)) or (op == "<" and _is_rank(y)):
                    return not v
                if (op == "<=" and _is_rank(x)) or (op == ">=" and _is_rank(y)):
                    return v
            one = const(1)
            if op == "<" and _is_rank(x) and y is one:
                return v
    return None


def is_final(t, F):
    """join(dirname(F), basename(F)) is F again."""
    t = strip(t)
    if t is F:
        return True
    if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] == "os.path.join" and len(t.a[2]) == 2 and _dirname(t.a[2][0], F):
        x = strip(t.a[2][1])
        if x.k == "call" and x.a[1].k == "g" and x.a[1].a[0] == "os.path.basename":
            return strip(x.a[2][0]) is F
        if x.k == "item" and x.a[0].k == "call" and x.a[0].a[1].k == "g" and x.a[0].a[1].a[0] == "os.path.split":
            return strip(x.a[0].a[2][0]) is F and x.a[1] is const(1)
    return False


def judge(res, eng, q, exit_, s, val, exc, raised, preserve, T, F, created, facts_rank, serial):
    mon = s.mon
    rank = self_rank(s, None)
    acting = bool(created)
    loc = exit_.loc()
    kinds = [e[0] for e in mon]
    ren = [e for e in mon if e[0] in ("rename", "rename-failed", "copy")]
    if not acting:
        if mon:
            res.add("other-process-acts", q, "exit", loc, f"a process that did not create the lock performs {kinds}")
        if exc is not None and raised:
            pass
        if val is not None and raised and eng.truth(s, val) is not False:
            res.add("error-swallowed", q, "exit", loc, "an error raised while writing is suppressed")
        return
    for e in mon:
        if e[0] == "create":
            res.add("exit-creates", q, "exit", loc, f"__exit__ opens {e[1]!r} for writing")
        if e[0] == "remove" and e[1] is F:
            res.add("final-removed", q, "exit", loc, "the final file is removed instead of being replaced atomically")
        if e[0] == "copy":
            res.add("non-atomic-move", q, "exit", loc, "the final file is produced by a copy, not by an atomic rename")
        if e[0] in ("rename", "rename-failed") and not (e[1] is T and e[2] is F):
            res.add("wrong-rename", q, "exit", loc, f"rename of {e[1]!r} to {e[2]!r} is not temporary -> final")
    lock_removed = any(e[0] == "remove" and e[1] in created for e in mon)
    if not lock_removed:
        res.add("lock-left-behind", q, f"raised={raised}", loc, f"on a path where the body {'raised' if raised else 'succeeded'} (events {kinds}) the lock file is not removed")
    if raised:
        if ren:
            res.add("partial-file-published", q, "exit", loc, "the temporary file is moved to the final name although writing failed")
        tmp_removed = any(e[0] == "remove" and e[1] is T for e in mon)
        if preserve and tmp_removed:
            res.add("preserved-file-removed", q, "exit", loc, "the temporary file is removed although preservation was requested")
        if not preserve and not tmp_removed:
            res.add("temporary-left-behind", q, "exit", loc, "the temporary file is not removed after a failed write")
        if val is not None and eng.truth(s, val) is not False:
            res.add("error-swallowed", q, "exit", loc, "an error raised while writing is suppressed")
    else:
        ok = [e for e in mon if e[0] == "rename"]
        if val is not None and not ok:
            res.add("not-published", q, "exit", loc, "after a successful write the file is not moved to its final name")
        idx_r = next((i for i, e in enumerate(mon) if e[0] in ("rename", "rename-failed")), None)
        idx_l = next((i for i, e in enumerate(mon) if e[0] == "remove" and e[1] in created), None)
        if idx_r is not None and idx_l is not None and idx_l < idx_r:
            res.add("lock-released-early", q, "exit", loc, "the lock is removed before the file has its final name")
        if idx_r is None and idx_l is not None and val is not None:
            res.add("not-published", q, "exit", loc, "the lock is removed without publishing the file")
        if any(e[0] == "remove" and e[1] is T for e in mon):
            res.add("temporary-removed-on-success", q, "exit", loc, "the temporary file is removed although writing succeeded")


def _owner(repo, n):
    p = repo.parents.get(n)
    while p is not None:
        if p in repo.func_of_node:
            return repo.func_of_node[p]
        p = repo.parents.get(p)
    return None


def use_site(repo, res, f, n, it, ce):
    res.stats["use_sites"] += 1
    name = ce.args[0] if ce.args else next((k.value for k in ce.keywords if k.arg == "filename"), None)
    final = ast.unparse(name) if name is not None else None
    if it.optional_vars is None:
        res.add("context-name-unused", f.qualname, "with lock_file", f.loc(n), "the temporary name of the lock is not used")
        return
    tmp = ast.unparse(it.optional_vars)
    finals = {final}
    names = {tmp}
    for x in ast.walk(n):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            if final != tmp and any(y in finals for y in plain(x.value)):
                finals.add(x.targets[0].id)
            if any(y in names for y in plain(x.value)):
                names.add(x.targets[0].id)
    used = False
    for st in n.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id == tmp and isinstance(x.ctx, ast.Load):
                used = True
            if isinstance(x, ast.Try) and any(isinstance(y, ast.Name) and y.id in names for z in x.body for y in ast.walk(z)):
                for h in x.handlers:
                    if not any(isinstance(y, ast.Raise) for z in h.body for y in ast.walk(z)):
                        res.add("error-swallowed", f.qualname, "except", f.loc(h), "an error while writing under the lock is caught inside the context, so the unfinished file is published and nobody is told")
            if isinstance(x, ast.With) and any(_suppresses(repo, f, i.context_expr) for i in x.items):
                res.add("error-swallowed", f.qualname, "suppress", f.loc(x), "an error while writing under the lock is suppressed inside the context")
            if isinstance(x, ast.Call):
                d = ast.unparse(x.func)
                if d.split(".")[-1] in ("debug", "info", "warning", "error", "isinstance", "print") or "path." in d:
                    continue
                for a in list(x.args) + [k.value for k in x.keywords]:
                    if final != tmp and any(y in finals for y in plain(a)):
                        res.add("final-name-written-under-lock", f.qualname, d, f.loc(x), f"{d} is given the final name {final} inside the lock context; it must use the temporary name")
    if not used:
        res.add("context-name-unused", f.qualname, "with lock_file", f.loc(n), "the temporary name of the lock is not used in the body")


def plain(e):
    """The names an expression may evaluate to (through choices and conversions)."""
    if isinstance(e, ast.IfExp):
        return plain(e.body) + plain(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [y for v in e.values for y in plain(v)]
    if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("str", "fspath", "Path", "abspath", "normpath") and e.args:
        return plain(e.args[0])
    return [ast.unparse(e)]


def _suppresses(repo, f, e):
    return isinstance(e, ast.Call) and repo.resolve_expr(e.func, f.module, f) == "contextlib.suppress"
