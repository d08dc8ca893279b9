"""P28: names and values handled by the library are data: no shell, interpreter or unpickler reads them as code.

Every external command, every evaluation and every loading of serialised data is classified.  Text that goes to a shell is
taken apart, through local definitions, string building and helpers, into pieces; each piece must be constant, a number, or
quoted.  Placeholders of job scripts that stand for paths must stand inside quotes.
"""

import ast
import re
import string

from ..core import ClassInfo, FuncInfo, Repo, dotted, enclosing_class, outer_method, walk_scope
from ..report import Result

RUN = {"run", "Popen", "call", "check_call", "check_output"}
SHELL = {
    "subprocess.getoutput", "subprocess.getstatusoutput", "os.system", "os.popen", "asyncio.create_subprocess_shell", "asyncio.subprocess.create_subprocess_shell",
    "commands.getoutput", "pexpect.run", "pexpect.spawn",
}
SHELLS = {"sh", "bash", "dash", "zsh", "ksh", "csh", "tcsh", "fish"}
EVAL = {"eval", "exec", "compile", "execfile", "builtins.eval", "builtins.exec", "builtins.compile", "code.interact", "runpy.run_path", "runpy.run_module", "numexpr.evaluate", "pandas.eval"}
UNPICKLE = {
    f"{m}.{n}" for m in ("pickle", "cPickle", "_pickle", "dill", "cloudpickle", "marshal", "joblib", "jsonpickle", "pickle5") for n in ("load", "loads", "Unpickler", "decode")
} | {"shelve.open", "numpy.core.multiarray._reconstruct", "pandas.read_pickle", "torch.load"}
YAML_UNSAFE = {"unsafe_load", "unsafe_load_all", "full_load", "full_load_all"}
YAML_LOAD = {"load", "load_all"}
SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
NUMERIC = {"int", "float", "len", "round", "abs", "bool", "hash", "id", "os.getpid", "time.time"}


class Pieces:
    """What the text of an expression consists of: (kind, node), kind in const, number, quoted, raw."""

    def __init__(self, rule):
        self.rule, self.repo = rule, rule.repo

    def of(self, e, f, env=None, depth=0, seen=()):
        env = env or {}
        if depth > 12:
            return [("raw", e)]
        go = lambda x: self.of(x, f, env, depth + 1, seen)
        if e is None:
            return [("raw", e)]
        if isinstance(e, ast.Constant):
            return [("const", e)] if isinstance(e.value, (str, bytes)) else [("number", e)]
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    spec = v.format_spec.values[0].value if isinstance(v.format_spec, ast.JoinedStr) and len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant) else ""
                    if re.fullmatch(r"[^\w]*\d*(\.\d+)?[dfgeEGxXob]", spec or ""):
                        out.append(("number", v))
                    else:
                        out += go(v.value)
                else:
                    out += go(v)
            return out
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod) and self.texty(e.left, f, env, seen):
                r = e.right.elts if isinstance(e.right, ast.Tuple) else e.right.values if isinstance(e.right, ast.Dict) else [e.right]
                out = go(e.left)
                for x in r:
                    out += go(x)
                return out
            if isinstance(e.op, ast.Add):
                return go(e.left) + go(e.right)
            return [("number", e)]
        if isinstance(e, ast.IfExp):
            return go(e.body) + go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return [p for v in e.values for p in go(v)]
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [p for v in e.elts for p in go(v)]
        if isinstance(e, ast.Starred):
            return go(e.value)
        if isinstance(e, ast.NamedExpr):
            return go(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            env2 = dict(env)
            for g in e.generators:
                src = self.of(g.iter, f, env, depth + 1, seen)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        env2[n.id] = src
            return self.of(e.elt, f, env2, depth + 1, seen)
        if isinstance(e, ast.Subscript):
            return go(e.value)
        if isinstance(e, ast.Name):
            return self.name(e, f, env, depth, seen)
        if isinstance(e, ast.Attribute):
            return self.attr(e, f, depth, seen)
        if isinstance(e, ast.Call):
            return self.call(e, f, env, depth, seen)
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            return [("number", e)]
        return [("raw", e)]

    def texty(self, e, f, env, seen):
        return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str) or isinstance(e, (ast.Name, ast.Attribute)) or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add)

    def name(self, e, f, env, depth, seen):
        if e.id in env:
            return env[e.id]
        if f is not None:
            key = (f.qualname, e.id)
            if key in seen:
                return []
            defs = self.rule.defs(f).get(e.id)
            if defs:
                out = []
                for d in defs:
                    if d == "param":
                        given = self.rule.given(f, e.id)
                        if given is None:
                            out.append(("raw", e))
                        else:
                            for v, g in given:
                                out += self.of(v, g, {}, depth + 1, seen + (key,))
                    else:
                        out += self.of(d, f, env, depth + 1, seen + (key,))
                return out
            if f.parent is not None and isinstance(f.parent, FuncInfo):
                return self.name(e, f.parent, {}, depth + 1, seen)
        m = f.module if f is not None else None
        for st in m.tree.body if m is not None else []:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets):
                return self.of(st.value, None, {}, depth + 1, seen)
        return [("raw", e)]

    def attr(self, e, f, depth, seen):
        """An attribute of the object: a constant or numeric option, or every value its class stores in it."""
        me = outer_method(f).params()[0] if f is not None and outer_method(f) is not None and outer_method(f).is_method and outer_method(f).params() else None
        c = enclosing_class(outer_method(f)) if me else None
        if c is None or not (isinstance(e.value, ast.Name) and e.value.id == me):
            return [("raw", e)]
        key = (c.qualname, "." + e.attr)
        if key in seen:
            return []
        at = (c.lookup_attr(e.attr) or (None,))[0]
        if isinstance(at, ast.Call):
            t = next((k.value for k in at.keywords if k.arg == "proptype"), at.args[1] if len(at.args) > 1 else None)
            if dotted(t) in ("int", "float", "bool") or (dotted(at.func) or "").split(".")[-1] == "float_in_range":
                return [("number", e)]
            return [("raw", e)]
        stored = []
        for k in [c, *c.all_subclasses(), *[x for x in c.mro() if isinstance(x, ClassInfo)]]:
            for g in k.methods.values():
                gm = g.params()[0] if g.is_method and g.params() else None
                for n in walk_scope(g.node):
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == gm:
                                stored.append((n.value, g))
        if at is None and not stored:
            return [("raw", e)]
        out = self.of(at, None, {}, depth + 1, seen + (key,)) if at is not None else []
        for v, g in stored:
            out += self.of(v, g, {}, depth + 1, seen + (key,))
        return [("raw", e)] if any(k == "raw" for k, _ in out) else out

    def call(self, e, f, env, depth, seen):
        go = lambda x: self.of(x, f, env, depth + 1, seen)
        q = self.rule.target(e.func, f)
        last = q.split(".")[-1] if isinstance(q, str) else ""
        if q in ("shlex.quote", "shlex.join", "pipes.quote", "subprocess.list2cmdline") or last == "list2cmdline":
            return [("quoted", e)]
        if q in NUMERIC:
            return [("number", e)]
        if q == "map" and len(e.args) >= 2 and self.rule.target(e.args[0], f) in ("shlex.quote", "pipes.quote"):
            return [("quoted", e)]
        if isinstance(e.func, ast.Attribute):
            if e.func.attr == "join":
                return go(e.func.value) + [p for a in e.args for p in go(a)]
            if e.func.attr in ("format", "format_map"):
                return go(e.func.value) + [p for a in [*e.args, *[k.value for k in e.keywords]] for p in go(a)]
            if e.func.attr in ("strip", "rstrip", "lstrip", "lower", "upper", "encode", "decode", "copy", "split", "rsplit", "splitlines") and not isinstance(q, FuncInfo):
                return go(e.func.value)
            if e.func.attr == "replace" and not isinstance(q, FuncInfo):
                return go(e.func.value) + [p for a in e.args for p in go(a)]
        if q in ("str", "list", "tuple", "sorted", "reversed", "os.fspath", "zip", "filter", "iter"):
            return [p for a in e.args for p in go(a)]
        if isinstance(q, FuncInfo):
            key = (q.qualname, "()")
            if key in seen:
                return []
            ps = list(q.bound_params()) if q.is_method else list(q.params())
            env2 = {}
            for p, a in zip(ps, e.args):
                env2[p] = go(a)
            for k in e.keywords:
                if k.arg:
                    env2[k.arg] = go(k.value)
            out = []
            for n in walk_scope(q.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    out += self.of(n.value, q, env2, depth + 1, seen + (key,))
            return out or [("raw", e)]
        return [("raw", e)]


class Rule:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self._defs = {}
        self._calls = self._used = None
        self.pieces = Pieces(self)
        self.stats = {"routines": 0, "commands": 0, "shell_texts": 0, "loaders": 0, "placeholders": 0}

    def defs(self, f):
        if f not in self._defs:
            d = {}
            for p in f.all_params():
                d.setdefault(p, []).append("param")
            for n in walk_scope(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, []).append(n.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            pair = isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts)
                            for i, x in enumerate(t.elts):
                                if isinstance(x, ast.Name):
                                    d.setdefault(x.id, []).append(n.value.elts[i] if pair else n.value)
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
                    d.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            d.setdefault(x.id, []).append(n.iter)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add") and isinstance(n.func.value, ast.Name):
                    d.setdefault(n.func.value.id, []).extend(n.args)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if isinstance(i.optional_vars, ast.Name):
                            d.setdefault(i.optional_vars.id, []).append(i.context_expr)
            self._defs[f] = d
        return self._defs[f]

    def given(self, f, param):
        """What the callers of a private routine pass for a parameter: (expression, caller); None where not all are known."""
        name = f.node.name
        if not name.startswith("_") or name.startswith("__") or param not in f.params():
            return None
        if self._calls is None:
            self._calls, self._used = {}, {}
            for g in self.repo.all_functions():
                fns = set()
                for n in walk_scope(g.node):
                    if isinstance(n, ast.Call):
                        x = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                        if x and x.startswith("_"):
                            fns.add(id(n.func))
                            self._calls.setdefault(x, []).append((n, g))
                for n in walk_scope(g.node):
                    x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if x and x.startswith("_") and id(n) not in fns and isinstance(n.ctx, ast.Load):
                        self._used.setdefault(x, []).append((n, g))

        def mine(e, g):
            """The expression stands for this routine, or may."""
            m = outer_method(g)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and m is not None and m.is_method and m.params() and e.value.id in (m.params()[0], "self", "cls"):
                c = enclosing_class(m)
                return c is not None and any(k.lookup(name) is f for k in [c, *c.all_subclasses()])
            t = self.target(e, g)
            return t is f or not isinstance(t, (FuncInfo, ClassInfo)) and isinstance(e, ast.Attribute) == bool(f.is_method)

        calls = [(n, g) for n, g in self._calls.get(name, []) if mine(n.func, g)]
        if not calls or any(mine(n, g) for n, g in self._used.get(name, [])):
            return None
        static = any(dotted(d) == "staticmethod" for d in f.node.decorator_list)
        a = f.node.args
        pos = [x.arg for x in [*a.posonlyargs, *a.args]]
        if f.is_method and not static and pos:
            pos = pos[1:]
        defaults = dict(zip(reversed([x.arg for x in [*a.posonlyargs, *a.args]]), reversed(a.defaults)))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        out = []
        for n, g in calls:
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                return None
            v = next((k.value for k in n.keywords if k.arg == param), None)
            if v is None and param in pos and pos.index(param) < len(n.args):
                v = n.args[pos.index(param)]
            if v is None:
                if param not in defaults:
                    return None
                v = defaults[param]
            out.append((v, g))
        return out

    def target(self, e, f, seen=()):
        """Qualified name (or repository routine) a called expression stands for, through local aliases."""
        if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "partial" and e.args:
            return self.target(e.args[0], f, seen)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f is not None:
            m = outer_method(f)
            if m is not None and m.is_method and m.params() and e.value.id == m.params()[0]:
                c = enclosing_class(m)
                g = c.lookup(e.attr) if c is not None else None
                return g if isinstance(g, FuncInfo) else f"self.{e.attr}"
        if isinstance(e, ast.Name) and f is not None and e.id not in seen:
            ds = self.defs(f).get(e.id)
            if ds and len(ds) == 1 and isinstance(ds[0], ast.AST) and isinstance(ds[0], (ast.Name, ast.Attribute, ast.Call)):
                return self.target(ds[0], f, seen + (e.id,))
        if isinstance(e, ast.Call):
            if dotted(e.func) == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.target(e.args[0], f, seen)
                return f"{b}.{e.args[1].value}" if isinstance(b, str) else b
            return ""
        if not dotted(e):
            return ""
        r = self.repo.resolve_expr(e, f.module, f)
        if isinstance(r, (FuncInfo, ClassInfo, str)):
            return r
        return dotted(e)

    def keyword(self, call, f, name):
        """Value of a keyword argument, also through ** of a local dictionary or partial; (given, node)."""
        for k in call.keywords:
            if k.arg == name:
                return True, k.value
        for k in call.keywords:
            if k.arg is None:
                for d in self.dicts(k.value, f):
                    if isinstance(d, ast.Dict):
                        for kk, vv in zip(d.keys, d.values):
                            if isinstance(kk, ast.Constant) and kk.value == name:
                                return True, vv
                    elif isinstance(d, ast.Call):
                        for x in d.keywords:
                            if x.arg == name:
                                return True, x.value
                if isinstance(k.value, ast.Name):
                    for n in walk_scope(f.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == k.value.id and isinstance(t.slice, ast.Constant) and t.slice.value == name:
                                    return True, n.value
        fn = call.func
        if isinstance(fn, ast.Name):
            for d in self.defs(f).get(fn.id, []):
                if isinstance(d, ast.Call):
                    for x in d.keywords:
                        if x.arg == name:
                            return True, x.value
        return False, None

    def dicts(self, e, f):
        if isinstance(e, ast.Name):
            return [d for d in self.defs(f).get(e.id, []) if isinstance(d, ast.AST)]
        return [e]

    # -- rules --------------------------------------------------------------------------------
    def function(self, f):
        self.stats["routines"] += 1
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call):
                self.call(n, f)

    def call(self, n, f):
        q = self.target(n.func, f)
        if not isinstance(q, str):
            return
        last = q.split(".")[-1]
        if q in SHELL:
            self.stats["commands"] += 1
            self.shell_text(n.args[0] if n.args else None, n, f)
        elif q.startswith("subprocess.") and last in RUN or q.startswith("asyncio") and last == "create_subprocess_exec":
            self.stats["commands"] += 1
            cmd = n.args[0] if n.args else self.keyword(n, f, "args")[1]
            given, sh = self.keyword(n, f, "shell")
            if given and not (isinstance(sh, ast.Constant) and not sh.value):
                self.shell_text(cmd, n, f)
            else:
                self.arguments(cmd, n, f, last == "create_subprocess_exec")
        elif q.startswith("os.") and re.match(r"(exec|spawn|posix_spawn)", last):
            self.stats["commands"] += 1
            for a in n.args:
                self.arguments(a, n, f, True)
        elif q in EVAL:
            ps = self.pieces.of(n.args[0], f) if n.args else [("raw", n)]
            if any(k not in ("const",) for k, _ in ps):
                self.res.add("evaluated", f.qualname, last, f.loc(n), f"{last} runs text that is not a constant as code")
        elif q in UNPICKLE:
            self.stats["loaders"] += 1
            self.res.add("unpickled", f.qualname, q, f.loc(n), f"{q} can run code from what it reads")
        elif q in ("numpy.load", "np.load"):
            given, v = self.keyword(n, f, "allow_pickle")
            if len(n.args) > 2:
                given, v = True, n.args[2]
            if given and not (isinstance(v, ast.Constant) and not v.value):
                self.res.add("unpickled", f.qualname, "numpy.load", f.loc(n), "numpy.load with allow_pickle can run code from what it reads")
        elif q.split(".")[0] == "yaml" and last in YAML_UNSAFE:
            self.stats["loaders"] += 1
            self.res.add("unsafe-yaml", f.qualname, last, f.loc(n), f"yaml.{last} can build arbitrary objects from a file")
        elif q.split(".")[0] == "yaml" and last in YAML_LOAD:
            self.stats["loaders"] += 1
            given, v = self.keyword(n, f, "Loader")
            if not given and len(n.args) > 1:
                given, v = True, n.args[1]
            if not given or not self.safe_loader(v, f):
                self.res.add("unsafe-yaml", f.qualname, "load", f.loc(n), "the YAML loader used here can build arbitrary objects from a file")
        elif q.split(".")[0] == "yaml" and last in ("safe_load", "safe_load_all"):
            self.stats["loaders"] += 1

    def safe_loader(self, v, f, depth=0):
        if depth > 6:
            return False
        if isinstance(v, ast.IfExp):
            return self.safe_loader(v.body, f, depth + 1) and self.safe_loader(v.orelse, f, depth + 1)
        r = self.target(v, f)
        if isinstance(r, ClassInfo):
            return any(str(b).split(".")[-1] in SAFE_LOADERS for b in r.mro() if not isinstance(b, ClassInfo))
        if isinstance(r, str):
            return r.split(".")[-1] in SAFE_LOADERS
        if isinstance(v, ast.Call) and dotted(v.func) == "getattr":
            return isinstance(v.args[1], ast.Constant) and v.args[1].value in SAFE_LOADERS
        return False

    def shell_text(self, cmd, n, f):
        self.stats["shell_texts"] += 1
        if isinstance(cmd, (ast.List, ast.Tuple)) and cmd.elts:
            cmd = cmd.elts[0]
        for k, x in self.pieces.of(cmd, f):
            if k == "raw":
                what = ast.unparse(x) if x is not None else "the command"
                self.res.add("unquoted-in-shell", f.qualname, what, f.loc(n), f"{what} is part of a command line given to a shell without being quoted")

    def arguments(self, cmd, n, f, flat):
        """No shell is started by name, and no value is split up into several arguments."""
        for d in self.lists(cmd, f, ()):
            if isinstance(d, (ast.List, ast.Tuple)):
                el = d.elts
                for i, x in enumerate(el):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.split("/")[-1] in SHELLS and i + 2 < len(el):
                        fl = el[i + 1]
                        if isinstance(fl, ast.Constant) and isinstance(fl.value, str) and re.fullmatch(r"-\w*c\w*", fl.value):
                            self.shell_text(el[i + 2], n, f)
                    y = x.value if isinstance(x, ast.Starred) else None
                    for z in self.lists(y, f, ()) if y is not None else []:
                        self.split(z, n, f)
            else:
                self.split(d, n, f)

    def lists(self, e, f, seen):
        """Expressions a list of arguments may be, through names, concatenation and helpers."""
        if e is None:
            return []
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.lists(e.left, f, seen) + self.lists(e.right, f, seen)
        if isinstance(e, ast.IfExp):
            return self.lists(e.body, f, seen) + self.lists(e.orelse, f, seen)
        if isinstance(e, ast.Name) and e.id not in seen:
            out = []
            for d in self.defs(f).get(e.id, []):
                if isinstance(d, ast.AST):
                    out += self.lists(d, f, seen + (e.id,))
                elif d == "param":
                    for v, g in self.given(f, e.id) or []:
                        out += self.lists(v, g, (*seen, e.id, g.qualname)) if g.qualname not in seen else []
            return out
        if isinstance(e, ast.Call):
            g = self.target(e.func, f)
            if isinstance(g, FuncInfo) and g.qualname not in seen:
                out = []
                for x in walk_scope(g.node):
                    if isinstance(x, ast.Return) and x.value is not None:
                        out += self.lists(x.value, g, seen + (g.qualname,))
                return out
        return [e]

    def split(self, e, n, f):
        """`text.split()` and `shlex.split(text)`: the text must not hold a value that could contain blanks."""
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            for c in e.generators:
                for z in self.lists(c.iter, f, ()):
                    self.split(z, n, f)
            return
        if not isinstance(e, ast.Call):
            return
        if dotted(e.func) in ("list", "tuple", "map", "filter", "sorted") and e.args:
            for z in self.lists(e.args[-1], f, ()):
                self.split(z, n, f)
            return
        q = self.target(e.func, f)
        text = None
        if q == "shlex.split":
            text = e.args[0] if e.args else None
        elif isinstance(e.func, ast.Attribute) and e.func.attr in ("split", "rsplit"):
            text = e.func.value
        if text is None:
            return
        # values put into a text by formatting or concatenation, as opposed to the text itself
        for k, x in self.filled(text, f):
            if k == "raw":
                self.res.add("split-value", f.qualname, ast.unparse(x), f.loc(n), f"{ast.unparse(x)} is put into a text that is then split at blanks into the arguments of a command")

    def filled(self, t, f, seen=()):
        if isinstance(t, ast.Name) and t.id not in seen:
            return [p for d in self.defs(f).get(t.id, []) if isinstance(d, ast.AST) for p in self.filled(d, f, seen + (t.id,))]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("format", "format_map"):
            return [p for a in [*t.args, *[k.value for k in t.keywords]] for p in self.pieces.of(a, f)]
        if isinstance(t, ast.JoinedStr):
            return [p for p in self.pieces.of(t, f) if p[0] != "const"]
        if isinstance(t, ast.BinOp):
            return [p for p in self.pieces.of(t, f) if p[0] != "const"]
        return []

    # -- job scripts ---------------------------------------------------------------------------
    def scripts(self, name, data, paths):
        for system, conf in data.items():
            if not isinstance(conf, dict):
                continue
            for key, text in conf.items():
                if not isinstance(text, str) or "\n" not in text:
                    continue
                for ln, line in enumerate(text.split("\n")):
                    if line.lstrip().startswith("#"):
                        continue
                    for field, q in placeholders(line):
                        self.stats["placeholders"] += 1
                        if field in paths and not q:
                            self.res.add("unquoted-in-script", f"{name}:{system}.{key}", field, f"{name}: [{system}] {key} line {ln + 1}", f"the path {{{field}}} is not quoted in the script of {system}: {line.strip()}")


def placeholders(line):
    """(field, inside quotes) of each replacement field of a line of shell text.

    Inside a command substitution quoting starts anew; where the substitution itself is not quoted its output is split, so
    its fields count as unquoted (but for the right-hand side of an assignment, which is never split).
    """
    out, i = [], 0
    assign = re.match(r"\s*(?:export\s+|local\s+)?\w+=", line) is not None
    stack = [None]  # quote state of each nesting level
    while i < len(line):
        ch, quote = line[i], stack[-1]
        if line.startswith("{{", i) or line.startswith("}}", i):
            i += 2
            continue
        if ch == "{":
            j = line.find("}", i)
            held = quote is not None and (assign or all(q is not None for q in stack[:-1]))
            out.append((re.split(r"[:!.\[]", line[i + 1 : j])[0], held))
            i = j + 1
            continue
        if ch == "\\" and quote != "'":
            i += 2
            continue
        if line.startswith("$(", i) and quote != "'":
            stack.append(None)
            i += 2
            continue
        if ch == ")" and quote is None and len(stack) > 1:
            stack.pop()
        elif quote is None and ch in "\"'":
            stack[-1] = ch
        elif quote == ch:
            stack[-1] = None
        elif quote is None and ch == "#" and (i == 0 or line[i - 1].isspace()):
            break
        i += 1
    return out


def path_keys(repo):
    """Keys of the job configuration that hold file system paths (made by the scheduler's own routines)."""
    keys, quoted = set(), set()
    m = repo.modules.get("caput.pipeline.runner._scheduler")
    if m is None:
        return keys
    rule = Rule(repo, Result())
    for f in repo.all_functions():
        if f.module is not m:
            continue
        for n in walk_scope(f.node):
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                        pairs.append((t.slice.value, n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                pairs += [(k.arg, k.value) for k in n.keywords if k.arg]
                for a in n.args:
                    if isinstance(a, ast.Dict):
                        pairs += [(k.value, v) for k, v in zip(a.keys, a.values) if isinstance(k, ast.Constant)]
            elif isinstance(n, ast.Dict):
                pairs += [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)]
            for k, v in pairs:
                if isinstance(v, ast.Call) and rule.target(v.func, f) in ("shlex.quote", "pipes.quote"):
                    quoted.add(k)
                elif pathlike(v, f, rule, ()):
                    keys.add(k)
    return keys - quoted


def pathlike(e, f, rule, seen):
    if isinstance(e, ast.Call):
        q = rule.target(e.func, f)
        if isinstance(q, FuncInfo):
            if (q.qualname,) in seen:
                return False
            return any(isinstance(n, ast.Return) and n.value is not None and pathlike(n.value, q, rule, seen + ((q.qualname,),)) for n in walk_scope(q.node))
        if isinstance(q, str) and (q.startswith("pathlib.") or q.split(".")[-1] in ("Path", "abspath", "realpath", "expanduser", "expandvars") or q.startswith("os.path.") and q.split(".")[-1] in ("join",)):
            return True
        if q == "str" and e.args:
            return pathlike(e.args[0], f, rule, seen)
        if isinstance(e.func, ast.Attribute):
            return e.func.attr in ("resolve", "expanduser", "absolute", "with_suffix", "joinpath") and True
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
        return pathlike(e.left, f, rule, seen) or isinstance(e.right, ast.Constant) and isinstance(e.right.value, str)
    if isinstance(e, ast.Subscript):
        return isinstance(e.value, ast.Name) and "director" in e.value.id or isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and e.slice.value.endswith("dir")
    if isinstance(e, ast.Name) and e.id not in seen:
        return any(
            pathlike(d.elts[0], f, rule, seen + (e.id,)) if isinstance(d, ast.Tuple) and d.elts else pathlike(d, f, rule, seen + (e.id,)) or tuple_path(d, e.id, f, rule, seen)
            for d in rule.defs(f).get(e.id, [])
            if isinstance(d, ast.AST)
        )
    if isinstance(e, ast.IfExp):
        return pathlike(e.body, f, rule, seen) or pathlike(e.orelse, f, rule, seen)
    return False


def tuple_path(d, name, f, rule, seen):
    """`a, b = helper()`: the element of the helper's result that this name takes."""
    if not isinstance(d, ast.Call):
        return False
    g = rule.target(d.func, f)
    if not isinstance(g, FuncInfo) or (g.qualname,) in seen:
        return False
    pos = None
    for n in walk_scope(f.node):
        if isinstance(n, ast.Assign) and n.value is d:
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Name) and x.id == name:
                            pos = i
    if pos is None:
        return False
    for n in walk_scope(g.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and pos < len(n.value.elts):
            if pathlike(n.value.elts[pos], g, rule, seen + ((g.qualname,),)):
                return True
    return False


SRC = """
import shlex
import subprocess
import yaml


class T:
    def go(self, name, n):
        cmd = f"{shlex.quote(self.exe)} -n {int(n)} {shlex.quote(name)}"
        if n:
            cmd += " && rm " + shlex.quote(name)
        subprocess.Popen(cmd, shell=True)
        subprocess.run(["ls", name])
        return yaml.safe_load(open(name))
"""


def selftest():
    def n(src):
        r = Repo(sources={"caput/__init__.py": "", "caput/x.py": src})
        res = Result()
        rule = Rule(r, res)
        for f in r.all_functions():
            rule.function(f)
        return len(res.findings)

    yield "clean", n(SRC) == 0
    yield "unquoted", n(SRC.replace('" && rm " + shlex.quote(name)', '" && rm " + name')) > 0
    yield "attribute", n(SRC.replace("{shlex.quote(self.exe)}", "{self.exe}")) > 0
    yield "shell on", n(SRC.replace('["ls", name])', 'f"ls {name}", shell=True)')) > 0
    yield "sh -c", n(SRC.replace('["ls", name]', '["sh", "-c", "ls " + name]')) > 0
    yield "yaml", n(SRC.replace("yaml.safe_load(open(name))", "yaml.load(open(name), Loader=yaml.FullLoader)")) > 0
    yield "eval", n(SRC.replace("yaml.safe_load(open(name))", "eval(name)")) > 0
    yield "split", n(SRC.replace('["ls", name]', '"ls {}".format(name).split()')) > 0
    yield "substitution", placeholders('a "$(b "{c}")" $(d "{e}")') == [("c", True), ("e", False)]
    yield "placeholders", placeholders('cd "{a:s}" {b:s} # {c}') == [("a", True), ("b", False)]


def run(repo: Repo, tier="quick"):
    import os
    import tomllib

    res = Result()
    rule = Rule(repo, res)
    for f in repo.all_functions():
        rule.function(f)
    # module-level calls
    for m in repo.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    q = dotted(n.func) or ""
                    if q in EVAL | UNPICKLE | SHELL:
                        res.add("evaluated", m.name, q, f"{m.path}:{n.lineno}", f"{q} at import time")
    paths = path_keys(repo)
    base = os.path.join(repo.root, "caput") if repo.root else None
    scripts = 0
    for d, _, fs in os.walk(base) if base else []:
        for x in sorted(fs):
            if x.endswith(".toml"):
                with open(os.path.join(d, x), "rb") as fh:
                    data = tomllib.load(fh)
                scripts += sum(isinstance(c, dict) and "script" in c for c in data.values())
                rule.scripts(os.path.relpath(os.path.join(d, x), repo.root), data, paths)
    res.stats = {**rule.stats, "path_keys": len(paths), "scripts": scripts}
    res.floors = {"routines": 600, "commands": 1, "loaders": 1, "scripts": 2, "path_keys": 4}
    res.explanation = (
        "Every call of the package was resolved; those that start external commands, evaluate text or load serialised data were classified. Text given to a shell was taken apart through local "
        "definitions, string building, attributes and helpers, and each piece required to be constant, numeric or quoted; argument lists may not contain values that were split at blanks; YAML loaders must "
        "derive from the safe ones. In the job script templates each placeholder that the scheduler fills with a path has to stand inside quotes."
    )
    return res
