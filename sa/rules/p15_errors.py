"""P15: failures are reported, never silently discarded."""

import ast

from ..core import ClassInfo, FuncInfo, Repo, dotted, enclosing_class, walk_scope
from ..report import Result

# An expected absence or end: may be handled quietly around the lookup itself.
NARROW = {
    "KeyError", "IndexError", "LookupError", "AttributeError", "ImportError", "ModuleNotFoundError", "PackageNotFoundError", "FileNotFoundError", "FileExistsError",
    "StopIteration", "StopAsyncIteration", "GeneratorExit", "TypeError", "ValueError", "AssertionError", "UnsupportedOperation", "NotImplementedError",
    "Empty", "Full", "AxisException", "UnicodeDecodeError", "UnicodeEncodeError", "ZeroDivisionError", "NameError", "OverflowError",
}
# Control-flow signals of the package, recognised by what they derive from or by being raised as a signal.
SIGNAL_BASES = {"StopIteration"}
REPORT = {"warn", "warning", "error", "exception", "critical", "info", "print", "fail", "echo", "secho", "print_exc", "abort"}
USER_STAGES = {"process", "process_finish", "setup", "next", "finish", "review", "read_process_write", "read_input", "write_output", "cast_input"}
WRITES = {
    "write", "writelines", "write_direct", "to_file", "to_hdf5", "to_zarr", "save", "dump", "safe_dump", "rename", "makedirs", "mkdir", "copyfile", "copytree", "move",
    "write_output", "_save_output", "create_dataset", "create_group", "savez", "tofile", "rmtree", "truncate", "flush", "fsync", "symlink", "link",
}
COMM = {
    "Send", "Recv", "Isend", "Irecv", "Sendrecv", "Bcast", "Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Reduce", "Allreduce", "Alltoall",
    "send", "recv", "isend", "irecv", "sendrecv", "bcast", "gather", "allgather", "scatter", "reduce", "allreduce", "alltoall", "Barrier", "barrier", "Wait", "Waitall", "redistribute",
}
EXTERNAL = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "os.system"}
NORETURN = {"sys.exit", "exit", "quit", "os._exit", "os.abort"}


def completes(stmts):
    """Can control fall out of (or leave by return/break/continue) this block without raising?"""
    for st in stmts:
        if isinstance(st, ast.Raise):
            return False
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            d = dotted(st.value.func) or ""
            if d in NORETURN or d.endswith(".Abort"):
                return False
        if isinstance(st, ast.If):
            if not completes(st.body) and st.orelse and not completes(st.orelse):
                return False
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            if not completes(st.body):
                return False
        elif isinstance(st, ast.Try):
            if st.finalbody and not completes(st.finalbody):
                return False
            if not completes(st.body) and all(not completes(h.body) for h in st.handlers):
                return False
    return True


class Rule:
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.rep_memo = {}

    # -- exceptions ------------------------------------------------------------------------
    def types(self, f, module, t):
        """Names of the caught types with their classification: 'broad', 'narrow' or 'signal'."""
        if t is None:
            return [("everything", "broad")]
        if isinstance(t, ast.Tuple):
            return [x for e in t.elts for x in self.types(f, module, e)]
        r = self.repo.resolve_expr(t, module, f)
        if isinstance(r, ClassInfo):
            names = {getattr(b, "name", str(b)).split(".")[-1] for b in r.mro()}
            if names & SIGNAL_BASES or self.is_signal(r):
                return [(r.name, "signal")]
            if names & NARROW:
                return [(r.name, "narrow")]
            return [(r.name, "broad")]
        name = (r if isinstance(r, str) else dotted(t) or ast.unparse(t)).split(".")[-1]
        if isinstance(r, str) and name not in NARROW and not isinstance(t, ast.Name):
            return [(name, "broad")]
        # a module-level or local tuple of types
        if isinstance(t, ast.Name):
            v = module.globals.get(t.id)
            if isinstance(v, ast.Tuple):
                return self.types(f, module, v)
        return [(name, "narrow" if name in NARROW else "broad")]

    def is_signal(self, c):
        """Internal control signal: raised bare as `raise C` (no message) inside the package and never for an error."""
        n = with_msg = 0
        for m in self.repo.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Raise) and x.exc is not None:
                    e = x.exc
                    called = isinstance(e, ast.Call)
                    d = dotted(e.func if called else e)
                    if d is not None and d.split(".")[-1] == c.name:
                        n += 1
                        with_msg += bool(called and (e.args or e.keywords))
        return n > 0 and with_msg == 0

    # -- what a block does -----------------------------------------------------------------
    def callee(self, f, module, call):
        g = self.repo.resolve_expr(call.func, module, f)
        if isinstance(g, ClassInfo):
            g = g.lookup("__init__")
        if isinstance(g, FuncInfo):
            return g
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls") and f is not None:
            c = enclosing_class(f)
            r = c.lookup(call.func.attr) if c else None
            return r if isinstance(r, FuncInfo) else None
        return None

    def risky(self, f, module, nodes, depth=0, params=None):
        """First risky operation in these statements: ('user'|'write'|'comm'|'external', text)."""
        for st in nodes:
            it = [st] if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else []
            for top in it:
                for n in [top, *walk_scope(top)]:
                    if isinstance(n, (ast.Yield, ast.YieldFrom)) and depth == 0 and f is not None and is_cm(f):
                        return "user", "the body of the with statement"
                    if not isinstance(n, ast.Call):
                        continue
                    d = dotted(n.func) or ""
                    r = self.repo.resolve_expr(n.func, module, f)
                    full = r if isinstance(r, str) else d
                    if full in EXTERNAL or d in EXTERNAL:
                        return "external", d
                    if isinstance(n.func, ast.Name) and f is not None and depth == 0:
                        g, ps = f, set()
                        while g is not None:
                            ps |= set(g.bound_params())
                            g = g.parent
                        if n.func.id in ps and n.func.id not in ("cls", "type", "dtype"):
                            return "user", n.func.id
                    if isinstance(n.func, ast.Attribute):
                        a = n.func.attr
                        v = n.func.value
                        own = isinstance(v, ast.Name) and v.id == "self" or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
                        if a in USER_STAGES and own:
                            return "user", d or a
                        if a in WRITES and not isinstance(v, ast.Constant):
                            return "write", d or a
                        if a in COMM:
                            return "comm", d or a
                        if a == "replace" and d.startswith("os."):
                            return "write", d
                    if isinstance(n.func, ast.Name) and n.func.id == "open" and self.write_mode(n):
                        return "write", "open"
                    g = self.callee(f, module, n)
                    if g is not None and depth < 4:
                        k = self.memo.get(g)
                        if k is None:
                            self.memo[g] = ("none", "")
                            k = self.memo[g] = self.risky(g, g.module, g.node.body, depth + 1) or ("none", "")
                        if k[0] != "none":
                            return k[0], f"{d or n.func.attr} -> {k[1]}"
        return None

    @staticmethod
    def write_mode(n):
        m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
        return isinstance(m, ast.Constant) and isinstance(m.value, str) and any(c in m.value for c in "wax+")

    def reports(self, f, module, nodes, depth=0):
        for st in nodes:
            for n in [st, *walk_scope(st)]:
                if isinstance(n, ast.Call):
                    a = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                    if a in REPORT:
                        return True
                    if a == "log" and len(n.args) > 1:
                        return True
                    g = self.callee(f, module, n)
                    if g is not None and depth < 2 and self.reports(g, g.module, g.node.body, depth + 1):
                        return True
        return False

    def raises(self, f, module, nodes, depth=0):
        """Some path out of these statements raises."""
        for st in nodes:
            for n in [st, *walk_scope(st)]:
                if isinstance(n, ast.Raise):
                    return True
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    if d in NORETURN or d.endswith(".Abort"):
                        return True
                    g = self.callee(f, module, n)
                    if g is not None and depth < 2 and not completes(g.node.body):
                        return True
        return False

    def keeps_error(self, h):
        """The handler stores the caught error for later (it is an operand of something other than a message)."""
        if h.name is None:
            return False
        for n in walk_scope(h):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == h.name:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "put", "set_exception") and any(isinstance(x, ast.Name) and x.id == h.name for x in n.args):
                return True
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == h.name:
                return True
        return False


def is_cm(f):
    return any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in f.node.decorator_list)


def functions_and_modules(repo):
    for m in repo.modules.values():
        if m.rel.endswith(".pyi"):
            continue
        yield None, m, m.tree
    for f in repo.all_functions():
        if not f.module.rel.endswith(".pyi"):
            yield f, f.module, f.node


def run(repo, tier="quick"):
    res = Result(stats={"handlers": 0, "cleanup_blocks": 0, "exit_methods": 0, "external_commands": 0, "error_objects": 0, "functions": 0, "abort_hooks": 0})
    R = Rule(repo)
    for f, m, node in functions_and_modules(repo):
        name = f.qualname if f is not None else m.name
        res.stats["functions"] += f is not None

        def loc(n):
            return f"{m.rel}:{n.lineno}"

        scope = list(walk_scope(node))
        for n in scope:
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                try_block(res, R, f, m, name, n, loc)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1] == "suppress":
                        res.stats["handlers"] += 1
                        for t in c.args:
                            judge(res, R, f, m, name, loc(n), R.types(f, m, t), n.body, [], None)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                r = R.repo.resolve_expr(n.value.func, m, f)
                nm = r.name if isinstance(r, ClassInfo) else r if isinstance(r, str) else ""
                mro = {getattr(b, "name", str(b)).split(".")[-1] for b in r.mro()} if isinstance(r, ClassInfo) else {nm.split(".")[-1]}
                if any(x.endswith(("Error", "Exception")) for x in mro) and not nm.endswith("assertRaises"):
                    res.add("error-not-raised", name, nm.split(".")[-1], loc(n), f"{nm} is created but not raised")
            if isinstance(n, ast.Raise):
                res.stats["error_objects"] += 1
            if isinstance(n, ast.Call):
                external(res, R, f, m, name, n, node, loc)
                quiet_call(res, R, f, m, name, n, loc)
        if f is not None and f.name == "__exit__" and f.cls is not None:
            exit_method(res, f, loc)
        if f is not None and is_cm(f):
            res.stats["exit_methods"] += 1
    abort_hook(res, R)
    res.floors = {"handlers": 40, "functions": 350, "exit_methods": 4, "external_commands": 3, "error_objects": 150}
    res.explanation = (
        "Every except clause and suppress() of the package: a clause catching general errors must raise or report on leaving; no clause may quietly swallow an error of user stages, file writes, "
        "communication or external commands in the block it guards (found through resolved calls). Clean-up blocks may not return, exit methods may not return a true value, created errors must be raised, "
        "and the result of every external command must be checked."
    )
    res.assumptions = ["a message of at least information level is a report", "an error kept on purpose by the handler is reported later"]
    return res


def must(stmts, pred):
    """Every normal way through the block executes a call satisfying pred: 'yes', 'no', or 'ends' (leaves before that)."""
    for st in stmts:
        if isinstance(st, ast.If):
            a, b = must(st.body, pred), must(st.orelse, pred)
            if calls(st.test, pred) or a == b == "yes":
                return "yes"
            if "ends" in (a, b):
                return "ends"
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            r = must(st.body, pred)
            if r != "no":
                return r
        elif isinstance(st, ast.Try):
            r = must(st.body, pred)
            fin = must(st.finalbody, pred)
            if r == "yes" and all(must(h.body, pred) == "yes" for h in st.handlers) or fin == "yes":
                return "yes"
            if "ends" in (r, fin) or any(must(h.body, pred) == "ends" for h in st.handlers):
                return "ends"
        elif isinstance(st, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if isinstance(st, (ast.For, ast.While)) and any(isinstance(x, ast.Return) for x in walk_scope(st)):
                return "ends"
        elif calls(st, pred):
            return "yes"
        elif isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return "ends"
    return "no"


def calls(node, pred):
    return any(isinstance(x, ast.Call) and pred(x) for x in [node, *walk_scope(node)])


def abort_hook(res, R):
    """The installed handler of uncaught errors shows the error and then ends all processes with a failure status."""
    for f, m, node in functions_and_modules(R.repo):
        for n in walk_scope(node):
            if not (isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and dotted(t) == "sys.excepthook" for t in n.targets)):
                continue
            name = f.qualname if f is not None else m.name
            where = f"{m.rel}:{n.lineno}"
            res.stats["abort_hooks"] += 1
            if f is not None and must(f.node.body, lambda c: False) == "ends" or R.repo.parents.get(n) is not node:
                res.add("crash-not-propagated", name, "not-installed", where, f"{name} does not install the handler of uncaught errors on every path")
            h = R.repo.resolve_expr(n.value, m, f)
            if not isinstance(h, FuncInfo):
                continue
            ps = h.bound_params()

            def show(c):
                d = dotted(c.func) or ""
                return d in ("sys.__excepthook__", "traceback.print_exception", "traceback.print_tb", "faulthandler.dump_traceback") or d.split(".")[-1] in REPORT and bool({x.id for x in ast.walk(c) if isinstance(x, ast.Name)} & set(ps))

            def abort(c):
                if not (isinstance(c.func, ast.Attribute) and c.func.attr == "Abort"):
                    return False
                a = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "errorcode"), None)
                return a is not None and not (isinstance(a, ast.Constant) and not a.value)

            def expand(pred):
                def q(c):
                    if pred(c):
                        return True
                    g = R.callee(h, m, c)
                    return g is not None and g is not h and must(g.node.body, pred) == "yes"
                return q

            if must(h.node.body, expand(show)) != "yes":
                res.add("crash-not-propagated", h.qualname, "not-shown", h.loc(), f"an uncaught error is not always shown by {h.name}")
            if must(h.node.body, expand(abort)) != "yes":
                res.add("crash-not-propagated", h.qualname, "no-abort", h.loc(), f"{h.name} does not always end all processes with a failure status")
            else:
                ca = [x for x in ast.walk(h.node) if isinstance(x, ast.Call) and expand(abort)(x)]
                cs = [x for x in ast.walk(h.node) if isinstance(x, ast.Call) and expand(show)(x)]
                if ca and cs and min((x.lineno, x.col_offset) for x in ca) < min((x.lineno, x.col_offset) for x in cs):
                    res.add("crash-not-propagated", h.qualname, "order", h.loc(), f"{h.name} ends the processes before the error is shown")


def judge(res, R, f, m, name, where, types, body, hbody, h):
    done = completes(hbody) if hbody else True
    if not done:
        return
    if h is not None and R.keeps_error(h):
        return
    raised = R.raises(f, m, hbody)
    caught = ",".join(sorted({t for t, _ in types}))
    kinds = {k for _, k in types}
    if kinds <= {"signal"}:
        return
    if "broad" in kinds and not raised and not R.reports(f, m, hbody):
        res.add("error-swallowed", name, caught, where, f"{name} catches {caught} and carries on without raising or reporting it")
        return
    if kinds == {"narrow"} and {t for t, _ in types} <= {"StopIteration", "ImportError", "ModuleNotFoundError", "PackageNotFoundError", "Empty", "FileNotFoundError", "FileExistsError"}:
        return
    k = R.risky(f, m, body)
    if k is not None and not raised:
        what = {"user": "user-supplied code", "write": "writing", "comm": "communication", "external": "an external command"}[k[0]]
        res.add("error-swallowed", name, f"{caught}:{k[0]}", where, f"{name} catches {caught} around {what} ({k[1]}) and carries on")


def try_block(res, R, f, m, name, n, loc):
    for h in n.handlers:
        res.stats["handlers"] += 1
        judge(res, R, f, m, name, loc(h), R.types(f, m, h.type), n.body, h.body, h)
    if n.finalbody:
        res.stats["cleanup_blocks"] += 1
        for st in n.finalbody:
            esc = escapes(st)
            if esc is not None:
                res.add("cleanup-discards-error", name, type(esc).__name__, loc(esc), f"a '{type(esc).__name__.lower()}' inside a finally block of {name} discards any error being raised")


def escapes(st, loop=False):
    if isinstance(st, ast.Return):
        return st
    if isinstance(st, (ast.Break, ast.Continue)) and not loop:
        return st
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
        return None
    inner = loop or isinstance(st, (ast.For, ast.While, ast.AsyncFor))
    for ch in ast.iter_child_nodes(st):
        if isinstance(ch, (ast.stmt, ast.ExceptHandler)):
            r = escapes(ch, inner)
            if r is not None:
                return r
    return None


def exit_method(res, f, loc):
    res.stats["exit_methods"] += 1
    ps = f.bound_params()
    for n in walk_scope(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Constant) and not v.value:
                continue
            if isinstance(v, ast.Call) and (dotted(v.func) or ast.unparse(v.func)).endswith("__exit__"):
                continue
            # a comparison with, or a subclass test for, one specific error is a deliberate choice of that error only
            if isinstance(v, (ast.Compare, ast.Call)) and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(v)):
                names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(v) if isinstance(x, ast.Attribute)}
                if (names & NARROW) and not names & {"Exception", "BaseException", "OSError"}:
                    continue
            # names whose only values are false
            if isinstance(v, ast.Name):
                vals = [x.value for x in walk_scope(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
                if vals and all(isinstance(x, ast.Constant) and not x.value for x in vals):
                    continue
            res.add("exit-suppresses-error", f.qualname, ast.unparse(v), loc(n), f"{f.qualname} may return a true value and so suppress the error that ended the block")


def external(res, R, f, m, name, n, scope, loc):
    d = dotted(n.func) or ""
    r = R.repo.resolve_expr(n.func, m, f)
    full = r if isinstance(r, str) else d
    if full not in EXTERNAL:
        return
    res.stats["external_commands"] += 1
    if full in ("subprocess.check_call", "subprocess.check_output"):
        return
    if full == "subprocess.run" and any(k.arg == "check" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords):
        return
    if full == "subprocess.run" and any(k.arg == "check" and not isinstance(k.value, ast.Constant) for k in n.keywords):
        return
    # the status is inspected: returncode / wait() / poll() / check_returncode of the result, here or where the handle goes
    where = [scope]
    if full == "subprocess.Popen":
        where = [x.tree for x in R.repo.modules.values() if not x.rel.endswith(".pyi")]
    for w in where:
        for x in ast.walk(w):
            if isinstance(x, ast.Attribute) and x.attr in ("returncode", "check_returncode"):
                if full == "subprocess.Popen" and from_run(R.repo, x):
                    continue
                if x.attr == "check_returncode" or tested(R, x):
                    return
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("wait", "poll") and full == "subprocess.Popen" and tested(R, x):
                return
    if full in ("subprocess.call", "os.system") and tested(R, n):
        return
    res.add("command-status-ignored", name, full, loc(n), f"{name} runs an external command with {full} and never checks whether it succeeded")


def quiet_call(res, R, f, m, name, n, loc):
    """A call told to discard the errors it meets: rmtree(ignore_errors=True), a callback that does nothing, gather(return_exceptions=True)."""
    d = dotted(n.func) or ""
    r = R.repo.resolve_expr(n.func, m, f)
    if isinstance(r, (FuncInfo, ClassInfo)):
        return
    full = r if isinstance(r, str) else d
    kw = {k.arg: k.value for k in n.keywords if k.arg}
    if full.split(".")[-1] == "rmtree":
        for i, a in enumerate(("ignore_errors", "onerror", "onexc"), 1):
            if a not in kw and len(n.args) > i and not any(isinstance(x, ast.Starred) for x in n.args):
                kw[a] = n.args[i]
    for a, v in kw.items():
        bad = False
        if a in ("ignore_errors", "return_exceptions", "suppress_errors"):
            bad = isinstance(v, ast.Constant) and bool(v.value)
        elif a in ("onerror", "onexc") and full.split(".")[-1] == "rmtree":
            g = R.repo.resolve_expr(v, m, f) if not isinstance(v, ast.Lambda) else None
            if isinstance(v, ast.Lambda):
                bad = not any(isinstance(x, ast.Call) for x in ast.walk(v.body))
            elif isinstance(g, FuncInfo):
                bad = completes(g.node.body) and not R.raises(g, g.module, g.node.body) and not R.reports(g, g.module, g.node.body)
        if bad:
            res.add("error-swallowed", name, f"{full}:{a}", loc(n), f"{name} calls {full} with {a}, so its failures are discarded")


def function_of(repo, x):
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
        x = repo.parents.get(x)
    return x


def from_run(repo, attr):
    """`p.returncode` where p is the result of subprocess.run in the same function."""
    if not isinstance(attr.value, ast.Name):
        return isinstance(attr.value, ast.Call)
    fn = function_of(repo, attr)
    for x in ast.walk(fn) if fn is not None else ():
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr.value.id for t in x.targets) and isinstance(x.value, ast.Call):
            if (dotted(x.value.func) or "").endswith("run"):
                return True
    return False


def tested(R, n):
    """The value decides whether an error is raised: directly or through variables of its function, or it is returned."""
    repo = R.repo
    fn = function_of(repo, n)
    names, work, seen = set(), [n], set()
    while work:
        x = work.pop()
        while x is not None and not isinstance(x, ast.stmt):
            par = repo.parents.get(x)
            if isinstance(par, ast.Assert) and par.test is x or isinstance(par, (ast.Return, ast.IfExp)):
                return True
            if isinstance(par, (ast.If, ast.While)) and par.test is x:
                # some raise lies in, or after, this decision
                if any(isinstance(y, ast.Raise) and y.lineno >= par.lineno for y in walk_scope(fn)):
                    return True
                for y in walk_scope(par):
                    if isinstance(y, ast.Call):
                        if (dotted(y.func) or "") in NORETURN or (dotted(y.func) or "").endswith(".Abort"):
                            return True
            if isinstance(par, ast.NamedExpr):
                names.add(par.target.id)
            x = par
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            names |= {t.id for t in ts if isinstance(t, ast.Name)} | {t.attr for t in ts if isinstance(t, ast.Attribute)}
        for y in ast.walk(fn) if fn is not None else ():
            if id(y) not in seen and (isinstance(y, ast.Name) and y.id in names or isinstance(y, ast.Attribute) and y.attr in names) and isinstance(y.ctx, ast.Load):
                seen.add(id(y))
                work.append(y)
    return False


POS = """
import subprocess, os, contextlib
class CaputConfigError(Exception): pass
def a(fn, x):
    try:
        return fn(x)
    except ValueError:
        return None
def b(path):
    try:
        os.remove(path)
    except OSError:
        pass
def c(dset, x):
    try:
        dset.write(x)
    except ValueError:
        x = 1
def low(dset):
    dset.to_file("x")
def d(dset):
    try:
        low(dset)
    except KeyError:
        return
def e(x):
    try:
        return x.y()
    finally:
        return 1
def g(x):
    if x:
        CaputConfigError("bad")
def h(cmd):
    subprocess.run(cmd)
def i(x):
    with contextlib.suppress(Exception):
        x.go()
class J:
    def __exit__(self, *a):
        return True
@contextlib.contextmanager
def l(x):
    try:
        yield x
    except KeyError:
        x = 1
def k(x):
    try:
        return x.go()
    except:
        return 0
def m(x):
    import shutil
    shutil.rmtree(x, True)
def n(x):
    import shutil
    shutil.rmtree(x, onerror=lambda *a: None)
"""
NEG = """
import subprocess, os, warnings
class _Missing(Exception): pass
def sig(x):
    if not x:
        raise _Missing
def a(t):
    try:
        t.to_file("x")
    except _Missing:
        return None
def b(d):
    try:
        return d["k"]
    except KeyError:
        return None
def c(p):
    try:
        os.makedirs(p)
    except OSError as e:
        if not os.path.isdir(p):
            raise e
def d(cmd):
    st = subprocess.run(cmd, capture_output=True)
    if st.returncode != 0:
        raise RuntimeError("x")
def e(x):
    try:
        return x.memory()
    except OSError as err:
        warnings.warn(str(err))
        return True
def f(p):
    try:
        os.remove(p)
    except FileNotFoundError:
        pass
def g(x):
    try:
        x.go()
    except Exception as e:
        raise ValueError("no") from e
class H:
    def __exit__(self, *a):
        self.close()
        return False
"""


def selftest():
    got = {f.construct.split(".")[-1] for f in run(Repo(sources={"caput/x.py": POS})).findings}
    neg = [f.key for f in run(Repo(sources={"caput/x.py": NEG})).findings]
    return [(n, n in got) for n in "abcdeghiklmn"] + [("J", "__exit__" in got), (f"negatives {neg}", not neg)]
