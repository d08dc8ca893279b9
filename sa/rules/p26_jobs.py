"""P26: queued jobs: complete scripts, honest status, no existing job touched or job submitted unasked.

The queueing routine is walked on every path, helpers in place, once for every combination of its switches; its file and
command actions, the keys it puts into the job configuration and the texts it fills in are recorded.  The script templates
of the registered systems are compared with the keys supplied and with the status protocol.
"""

import ast
import os
import re
import string
import tomllib

from ..core import AnalysisError, ClassInfo, FuncInfo, Repo
from ..flow import FALSE, NONE, TRUE, Client, Engine, alts, const, is_const, mk, normalise
from ..report import Result

MOD = "caput.pipeline.runner._scheduler"
COPY = {"shutil.copyfile", "shutil.copy", "shutil.copy2"}
RUN = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "os.system", "os.popen"}
EXISTS = {"exists", "is_dir", "isdir", "is_file", "isfile", "lexists"}


def fields(text):
    """(name, format spec) of the replacement fields of a template, nested ones too."""
    out = []
    for _, name, spec, _ in string.Formatter().parse(text):
        if name is not None:
            out.append((re.split(r"[.\[]", name)[0], spec or ""))
    return out


class JobEngine(Engine):
    def _truth(self, s, v):
        if v.k == "dict":
            # a mapping that was given a key is not empty
            return bool(v.a[1]) or any(e[0] == "key" and e[1] is v for e in s.mon)
        return super()._truth(s, v)


class Jobs(Client):
    max_states = 256
    max_depth = 8
    keep_heap = True
    assume_total = True

    def __init__(self, systems_var):
        self.var = systems_var
        self.formats = {}
        self.texts = set()
        self.values = {}
        self.status = set()

    def initial(self, f):
        return ()

    def ev(self, st, *e):
        s = st.copy()
        if e not in s.mon or e[0] in ("submit", "write", "copy", "lint"):
            s.mon = (*s.mon, e)
        return s

    def on_branch(self, eng, st, term, taken, node):
        """Tests whose outcome says what is there already."""
        f, v = normalise(term)
        taken = taken == v
        n = None
        if f.k == "call":
            if f.a[1].k == "attr" and f.a[1].a[1] in EXISTS:
                n = f.a[1].a[0]
            elif f.a[1].k == "g" and isinstance(f.a[1].a[0], str) and f.a[1].a[0].split(".")[-1] in EXISTS and f.a[2]:
                n = f.a[2][0]
        if n is not None:
            t = (tail(n) or "").strip("/").lower()
            if "status" in t:
                self.status.add(norm(n))
                return self.look(st, "status", taken)
            if "activate" not in t and "venv" not in t:
                return self.look(st, "job", taken)
        if f.k == "cmp" and f.a[0] in ("in", "==") and any(is_const(x) and x.a[1] == "FINISHED" for x in f.a[1:]):
            return self.ev(st, "seen", "finished", taken)
        return st

    def look(self, st, what, taken):
        """Looking twice shows the same, unless the directory was made in between."""
        for e in reversed(st.mon):
            if e[0] == "mkdir":
                break
            if e[0] == "seen" and e[1] == what and e[2] != taken:
                return None
        return self.ev(st, "seen", what, taken)

    # -- keys of mappings ---------------------------------------------------------------------
    def keys(self, st, t, depth=0):
        """(keys surely present, keys holding paths not turned into text, known?)."""
        if depth > 6:
            return frozenset(), frozenset(), False
        if t.k == "phi":
            rs = [self.keys(st, x, depth + 1) for x in t.a[0]]
            have = frozenset.intersection(*[r[0] for r in rs])
            return have, frozenset().union(*[r[1] for r in rs]), all(r[2] for r in rs)
        have, paths = set(), set()
        known = True
        if t.k == "dict":
            for k, v in t.a[1]:
                if is_const(k):
                    have.add(k.a[1])
                    if self.path(v):
                        paths.add(k.a[1])
                elif k.k in ("star", "dstar") or k is NONE:
                    h, p, _ = self.keys(st, v, depth + 1)
                    have |= h
                    paths |= p
        elif t.k == "call":
            fn = t.a[1]
            src = None
            if fn.k == "attr" and fn.a[1] == "copy":
                src = fn.a[0]
            elif fn.k == "g" and fn.a[0] in ("dict", "copy.copy", "copy.deepcopy") and t.a[2]:
                src = t.a[2][0]
            if src is not None:
                h, p, known = self.keys(st, src, depth + 1)
                have |= h
                paths |= p
                for k, v in t.a[3]:
                    if k == "**":
                        h, p, _ = self.keys(st, v, depth + 1)
                        have |= h
                        paths |= p
                    else:
                        have.add(k)
        elif t.k not in ("param", "item", "self", "attr", "unk", "elem"):
            known = False
        if t.k in ("comp", "dictcomp", "unk"):
            known = False
        for e in st.mon:
            if e[0] == "key" and e[1] is t:
                have.add(e[2])
                (paths.add if e[3] else paths.discard)(e[2])
        if t in self.texts:
            paths = set()
        for f, v in st.facts.items():
            if f.k == "cmp" and f.a[0] in ("in", "In", "not in", "NotIn") and f.a[2] is t and is_const(f.a[1]):
                if v == (f.a[0] in ("in", "In")):
                    have.add(f.a[1].a[1])
        return frozenset(have), frozenset(paths), known

    def path(self, v):
        for x in alts(v):
            y = x
            if y.k == "call" and y.a[1].k == "g" and y.a[1].a[0] in ("str", "os.fspath", "shlex.quote"):
                continue
            if y.k == "path":
                return True
            if y.k == "bin" and y.a[0] == "Div" and not any(z.k == "const" and z.a[0] in ("int", "float") for z in y.a[1:]):
                return True
            if y.k == "call" and y.a[1].k == "attr" and y.a[1].a[1] in ("resolve", "expanduser", "absolute"):
                return True
            if y.k == "call" and y.a[1].k == "g" and y.a[1].a[0] in ("pathlib.Path", "Path"):
                return True
        return False

    def on_store_item(self, eng, st, base, idx, val, node):
        if is_const(idx) and isinstance(idx.a[1], str):
            self.values.setdefault(idx.a[1], set()).add(val)
            return self.ev(st, "key", base, idx.a[1], self.path(val))
        if any(f.k == "cmp" and f.a[0] in ("==", "in") and f.a[1] is idx and v for f, v in st.facts.items()):
            return st  # only for some keys
        if val.k == "call" and val.a[1].k == "g" and val.a[1].a[0] == "str":
            self.texts.add(base)  # (every path in it: done in a loop over its items)
        return st

    # -- actions ------------------------------------------------------------------------------
    def on_call(self, eng, st, node, fn, args, kws, callee):
        kw = dict(kws)
        if isinstance(callee, FuncInfo):
            if callee.name == "lint_config":
                return [(self.ev(st, "lint"), NONE)]
            if callee.name == "_load_config" or callee.name.startswith("_load_"):
                return [(st, mk("call", id(node), fn, tuple(args), tuple(kws)))]
            return None
        d = fn.a[0] if fn.k == "g" and isinstance(fn.a[0], str) else None
        out = mk("call", id(node), fn, tuple(args), tuple(kws))
        if d in COPY and len(args) >= 2:
            return [(self.ev(st, "copy", args[0], args[1]), NONE)]
        if d in ("open", "io.open"):
            m = args[1] if len(args) > 1 else kw.get("mode", const("r"))
            if is_const(m) and isinstance(m.a[1], str) and set(m.a[1]) & set("wax+"):
                return [(self.ev(st, "write", args[0]), out)]
            self.read(args[0])
            return [(st, out)]
        if d == "print" and kw.get("file", NONE) is not NONE:
            return [(self.content(st, args), NONE)]
        if d in RUN:
            return [(self.ev(st, "submit", args[0] if args else kw.get("args", NONE), kw.get("cwd", NONE), node.lineno), out)]
        if d in ("os.makedirs", "os.mkdir"):
            return [(self.ev(st, "mkdir", args[0]), NONE)]
        if d in ("pathlib.Path", "os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.path.expandvars", "os.fspath") and len(args) == 1:
            return [(st, args[0] if d.startswith("os.") or args[0].k == "path" else mk("path", args[0]))]
        if fn.k == "attr":
            b, a = fn.a
            if a in ("resolve", "absolute", "expanduser") and not args:
                return [(st, b if b.k == "path" else mk("path", b))]
            if a == "mkdir":
                return [(self.ev(st, "mkdir", b), NONE)]
            if a in ("write_text", "write_bytes"):
                return [(self.content(self.ev(st, "write", b), args), NONE)]
            if a in ("write", "writelines") and args:
                return [(self.content(st, args), NONE)]
            if a in ("read_text", "read_bytes"):
                self.read(b)
            if a == "open" and b.k != "g":
                m = args[0] if args else kw.get("mode", const("r"))
                if is_const(m) and isinstance(m.a[1], str) and set(m.a[1]) & set("wax+"):
                    return [(self.ev(st, "write", b), out)]
                self.read(b)
                return [(st, out)]
            if a in ("format", "format_map"):
                self.fmt(st, b, args, kws, node, a)
                return [(st, out)]
            if a == "setdefault" and args and is_const(args[0]):
                v = args[1] if len(args) > 1 else NONE
                s = self.ev(st, "key", b, args[0].a[1], self.path(v))
                if (b, args[0]) not in s.heap:
                    s.heap[(b, args[0])] = mk("phi", frozenset((mk("item", b, args[0]), v))) if v is not NONE else mk("item", b, args[0])
                return [(s, s.heap[(b, args[0])])]
            if a == "update" and b.k != "g":
                s = st
                for k, v in kws:
                    if k == "**":
                        h, p, _ = self.keys(s, v)
                        for x in sorted(h):
                            s = self.ev(s, "key", b, x, x in p)
                            s.heap[(b, const(x))] = s.heap.get((v, const(x)), mk("item", v, const(x)))
                    else:
                        s = self.ev(s, "key", b, k, self.path(v))
                        s.heap[(b, const(k))] = v
                for x in args:
                    if x.k == "dict":
                        for k, v in x.a[1]:
                            if is_const(k):
                                s = self.ev(s, "key", b, k.a[1], self.path(v))
                                s.heap[(b, k)] = v
                    else:
                        h, p, kn = self.keys(s, x)
                        for y in sorted(h):
                            s = self.ev(s, "key", b, y, y in p)
                return [(s, NONE)]
        return None

    def read(self, p):
        if "status" in (tail(p) or "").lower():
            self.status.add(norm(p))

    def content(self, st, args):
        """A file is given the filled-in script."""
        for a in args:
            for x in a.walk():
                if x.k == "call" and x.a[1].k == "attr" and x.a[1].a[1] in ("format", "format_map") and "script" in self.source(st, x.a[1].a[0]):
                    return self.ev(st, "content")
                if x.k == "call" and x.a[1].k == "attr" and x.a[1].a[1] in ("read_text", "read_bytes", "read") and any(y.k == "param" and "config" in str(y.a[0]) for y in x.walk()):
                    return self.ev(st, "copied")
        return st

    def source(self, st, t):
        """Which entry of a system's table a text is: its key, or None."""
        kinds = set()
        for x in alts(t):
            k = None
            if x.k == "item" and is_const(x.a[1]):
                k = x.a[1].a[1]
                own = self.of_system(x.a[0])
            elif x.k == "call" and x.a[1].k == "attr" and x.a[1].a[1] == "get" and x.a[2] and is_const(x.a[2][0]):
                k = x.a[2][0].a[1]
                own = self.of_system(x.a[1].a[0])
            else:
                own = False
            kinds.add(k if own else None)
        return kinds

    def of_system(self, t):
        return any(x.k == "g" and isinstance(x.a[0], str) and x.a[0].split(".")[-1] == self.var for x in t.walk()) or any(
            x.k == "g" and not isinstance(x.a[0], str) and getattr(x.a[0], "name", "") == self.var for x in t.walk()
        )

    def fmt(self, st, b, args, kws, node, how):
        for kind in self.source(st, b):
            if kind is None:
                continue
            have, paths, known = set(), set(), True
            for k, v in kws:
                if k == "**":
                    h, p, kn = self.keys(st, v)
                    have |= h
                    paths |= p
                    known = known and kn
                else:
                    have.add(k)
                    if self.path(v):
                        paths.add(k)
            if how == "format_map" and args:
                h, p, known = self.keys(st, args[0])
                have, paths = set(h), set(p)
            self.formats.setdefault(kind, []).append((frozenset(have), frozenset(paths), known, node.lineno, bool(args) and how == "format"))


def bare(t):
    """The path itself, without conversions between text and path objects."""
    while t.k == "path" or t.k == "call" and t.a[1].k == "g" and isinstance(t.a[1].a[0], str) and t.a[1].a[0].split(".")[-1] in ("str", "Path", "fspath", "abspath") and t.a[2]:
        t = t.a[0] if t.k == "path" else t.a[2][0]
    return t


def parts(t):
    """(directory term or None, last component or None) of a path term."""
    t = bare(t)
    if t.k == "bin" and t.a[0] == "Div" and is_const(t.a[2]):
        return bare(t.a[1]), str(t.a[2].a[1])
    if t.k == "bin" and t.a[0] == "Add" and is_const(t.a[2]):
        d, _, n = str(t.a[2].a[1]).rpartition("/")
        return (bare(t.a[1]) if not d else None), n
    if t.k == "fstr" and t.a[0] and is_const(t.a[0][-1]):
        d, _, n = str(t.a[0][-1].a[1]).rpartition("/")
        return (bare(t.a[0][0]) if len(t.a[0]) == 2 and not d else None), n
    if t.k == "call" and t.a[1].k == "g" and t.a[1].a[0] == "os.path.join" and t.a[2] and is_const(t.a[2][-1]):
        return (bare(t.a[2][0]) if len(t.a[2]) == 2 else None), str(t.a[2][-1].a[1])
    if t.k == "call" and t.a[1].k == "attr" and t.a[1].a[1] == "joinpath" and t.a[2] and is_const(t.a[2][-1]):
        return (bare(t.a[1].a[0]) if len(t.a[2]) == 1 else None), str(t.a[2][-1].a[1])
    if is_const(t):
        return None, str(t.a[1]).split("/")[-1]
    return None, None


def norm(t):
    """A path as (root term, components), however it was put together."""
    d, n = parts(t)
    if d is None:
        return (bare(t) if n is None else None, () if n is None else (n,))
    r, c = norm(d)
    return r, (*c, *[x for x in n.split("/") if x])


def tail(t):
    return parts(t)[1]


def head(t):
    return parts(t)[0]


class Rule:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.stats = {"scenarios": 0, "paths": 0, "systems": 0, "placeholders": 0, "fillings": 0, "script_lines": 0}

    # -- the queueing routine -------------------------------------------------------------------
    def queue(self, var):
        q = self.repo.func(f"{MOD}.queue")
        ps = q.all_params()
        for need in ("submit", "lint", "overwrite", "email"):
            if need not in ps:
                raise AnalysisError(f"queue has no parameter {need}")
        self.formats = {}
        given = mk("param", "email")
        runs = [(su, li, ov, NONE, FALSE) for su in (TRUE, FALSE) for li in (TRUE, FALSE) for ov in ("never", "failed", "always")]
        runs += [(su, FALSE, "never", given, FALSE) for su in (TRUE, FALSE)] + [(FALSE, FALSE, "always", NONE, TRUE)]
        for submit, lint, over, email, options in runs:
            c = Jobs(var)
            eng = JobEngine(self.repo, c)
            bind = {"submit": submit, "lint": lint, "overwrite": const(over), "email": email}
            for x in ("profile", "psutil"):
                if x in ps:
                    bind[x] = options
            o = eng.run(q, bind=bind, mon=())
            self.stats["scenarios"] += 1
            for k, v in c.formats.items():
                self.formats.setdefault(k, set()).update(v)
            for s, _ in o.ret:
                self.stats["paths"] += 1
                self.judge(q, s, submit is TRUE, lint is TRUE, over)
            self.filled(q, c, options is TRUE, over, [e for s, _ in o.ret for e in s.mon])
        return q

    def judge(self, q, s, submit, lint, over):
        ev = [e for e in s.mon if e[0] in ("lint", "mkdir", "copy", "write", "submit")]
        marks = {e[0] for e in s.mon}
        acts = [e for e in ev if e[0] != "lint"]
        add = lambda r, d, m: self.res.add(r, q.qualname, d, q.loc(), m)
        exists, finished, status = self.existing(s)
        # what is there already
        if exists is True:
            if over == "never" and acts:
                add("existing-job-touched", "never", "with overwrite=never an existing job is written to or submitted again")
            elif over == "failed" and finished is True and acts:
                add("existing-job-touched", "failed", "with overwrite=failed a finished job is written to or submitted again")
        elif exists is None and acts and over != "always":
            add("existing-job-not-checked", over, f"with overwrite={over} a job is written without looking whether it exists")
        if exists is True and over == "failed" and finished is None and status is not False and acts:
            add("existing-job-not-checked", "status", "with overwrite=failed the job is written without looking at its status")
        skip_ok = exists is True and (over == "never" or over == "failed" and finished is True)
        if not acts:
            if not skip_ok:
                add("job-not-created", over, f"with overwrite={over} nothing is created although no existing job has to be kept")
            return
        if lint and (not ev or ev[0][0] != "lint"):
            add("not-checked-first", "lint", "job files are created before the configuration was checked")
        if not lint and any(e[0] == "lint" for e in ev):
            add("not-checked-first", "nolint", "the configuration is checked although this was switched off")
        subs = [i for i, e in enumerate(acts) if e[0] == "submit"]
        if submit and len(subs) != 1:
            add("submission", "count", f"a job to be submitted is submitted {len(subs)} times")
        if not submit and subs:
            add("submission", "unasked", "a job is submitted although submission was not asked for")
        writes = [e for e in acts if e[0] == "write"]
        if skip_ok:
            return
        if not writes:
            add("job-not-created", "script", "no job script is written")
            return
        dirs = {bare(h) for h in (head(e[1]) for e in writes) if h is not None}
        if "content" not in marks:
            add("job-not-created", "content", "what is written is not the filled-in script")
        copies = [e for e in acts if e[0] == "copy"]
        if not copies and "copied" not in marks and not self.same_file(s):
            add("job-not-created", "config", "the configuration is not copied to the job directory")
        for i in subs:
            e = acts[i]
            if any(x[0] in ("write", "copy", "mkdir") for x in acts[i + 1 :]):
                add("submission", "early", "the job is submitted before all of its files are written")
            cwd = bare(e[2]) if e[2] is not NONE else None
            argv = e[1]
            last = argv.a[-1][-1] if argv.k in ("list", "tuple") and argv.a[-1] else None
            names = {tail(w[1]) for w in writes}
            if last is not None:
                n = tail(last)
                if n is not None and n not in names:
                    add("submission", "script", f"the submitted file {n} is not the script that was written")
                if is_const(last) and cwd is not None and dirs and not any(cwd is d for d in dirs):
                    add("submission", "directory", "the job is submitted from a directory other than the one its script was written to")
                if is_const(last) and cwd is None:
                    add("submission", "directory", "the job is submitted from the current directory instead of the job's own")

    def filled(self, q, c, options, over, events):
        """What the script is told: files, options and process counts are those of the request."""
        add = lambda d, m: self.res.add("script-value", q.qualname, d, q.loc(), m)

        def paths(key):
            return {norm(x) for v in c.values.get(key, ()) for x in alts(v) if norm(x)[1]}

        copied = {norm(e[2]) for e in events if e[0] == "copy"} | {norm(e[1]) for e in events if e[0] == "write" and "config" in (tail(e[1]) or "")}
        if copied and paths("configpath") and not paths("configpath") & copied:
            add("configpath", "the script runs a configuration file other than the one copied into the job directory")
        if over == "failed" and c.status and paths("statuspath") and not paths("statuspath") & c.status:
            add("statuspath", "the script reports its status in a file other than the one looked at when the job is queued again")
        for v in c.values.get("mpiproc", ()):
            got = {x.a[1].a[1] for x in v.walk() if x.k == "item" and is_const(x.a[1])}
            if not {"nodes", "pernode"} <= got and not any(x.k == "unk" for x in v.walk()):
                add("mpiproc", "the number of processes is not made of the numbers of nodes and of processes per node")
        for key, flag in (("profile", "--profile"), ("profiler", "--profiler"), ("psutil", "--psutil")):
            vals = [v for v in c.values.get(key, ())]
            texts = [str(x.a[1]) for v in vals for x in v.walk() if is_const(x) and isinstance(x.a[1], str)]
            if not vals:
                continue
            if options and not any(t.startswith(flag) for t in texts):
                add(key, f"{flag} does not reach the script although it was asked for")
            if not options and any(t.startswith("--") for t in texts):
                add(key, f"{flag} reaches the script although it was not asked for")
            if options and key == "profiler" and not any(x.k == "param" and x.a[0] == "profiler" for v in vals for x in v.walk()) and not any(x.k == "unk" for v in vals for x in v.walk()):
                add(key, "the profiler asked for does not reach the script")

    def existing(self, s):
        got = {}
        for e in s.mon:
            if e[0] == "seen":
                got[e[1]] = e[2]
        return got.get("job"), got.get("finished"), got.get("status")

    def same_file(self, s):
        """The configuration is already the one in the job directory."""
        return any(f.k == "cmp" and f.a[0] in ("==", "!=", "eq", "ne", "is", "is not") and v == (f.a[0] in ("==", "eq", "is")) and any("config" in (tail(x) or "") for x in f.a[1:]) for f, v in s.facts.items())

    # -- the systems ------------------------------------------------------------------------------
    def systems(self, name, data, read):
        for system, conf in data.items():
            if not isinstance(conf, dict) or "script" not in conf:
                continue
            self.stats["systems"] += 1
            where = f"{name}:{system}"
            req = set(conf.get("required", []))
            texts = [("script", conf["script"])]
            if isinstance(conf.get("invoke_args"), str):
                texts.append(("invoke_args", conf["invoke_args"]))
            if isinstance(conf.get("mail"), dict) and "options" in conf["mail"]:
                texts.append(("options", conf["mail"]["options"]))
            for key, text in texts:
                try:
                    fs = fields(text)
                except ValueError as e:
                    self.res.add("template", where, key, where, f"the {key} of {system} is not a valid template: {e}")
                    continue
                self.stats["placeholders"] += len(fs)
                for have, paths, known, line, pos in self.formats.get(key, ()):
                    self.stats["fillings"] += 1
                    for x, spec in fs:
                        if known and x not in have | req and not (pos and x in ("",) or x.isdigit()):
                            self.res.add("placeholder-not-supplied", where, f"{key}.{x}", where, f"the {key} of {system} needs {{{x}}}, which is neither required from the user nor supplied when it is filled in (line {line})")
                        elif known and x in paths and spec.endswith("s"):
                            self.res.add("placeholder-type", where, f"{key}.{x}", where, f"{{{x}:{spec}}} of {system} is filled with a path object, which has no such format")
            for key in [*conf, *[f"mail.{k}" for k in conf.get("mail", {})]]:
                k = key.split(".")[-1]
                if key != "mail" and k not in read:
                    self.res.add("system-entry-unused", where, key, where, f"the entry {key} of {system} is never read")
            self.script(where, system, conf["script"])

    def script(self, where, system, text):
        add = lambda r, m: self.res.add("script-" + r, where, r, where, f"script of {system}: {m}")
        lines = [l.strip() for l in text.split("\n")]
        lines = [re.sub(r"\s#.*$", "", l) if not l.startswith("#") else l for l in lines]
        self.stats["script_lines"] += len(lines)
        code = [l for l in lines if l and not l.startswith("#")]
        runs = [i for i, l in enumerate(code) if "caput-pipeline" in l]
        if len(runs) != 1:
            add("run", f"the pipeline is started {len(runs)} times")
            return
        r = runs[0]
        line = code[r]
        fs = [f for f, _ in fields(text)]
        lf = [f for f, _ in fields(line)]
        for need in ("invoke", "invoke_args", "configpath"):
            if need not in lf:
                add("run", f"{{{need}}} is not part of the command that starts the pipeline")
        for opt in ("profile", "profiler", "psutil"):
            if opt not in lf:
                add("options", f"the option {opt} of the request has no effect: {{{opt}}} is not part of the command that starts the pipeline")
        if re.search(r"\|\||(?<![&>])&\s*$|;\s*true|(?<!\|)\|(?!\|)", line) and not re.search(r"set -o pipefail", text):
            add("status", "a failure of the pipeline does not end the script")
        before, after = code[:r], code[r + 1 :]
        depth = 0
        seen_e = trap = running = False
        funcs, cur = {}, None
        for l in before:
            m = re.match(r"(?:function\s+)?(\w+)\s*(?:\(\))?\s*\{\{", l)
            if m:
                cur = m.group(1)
                funcs[cur] = []
                continue
            if cur is not None:
                if l.startswith("}}"):
                    cur = None
                else:
                    funcs[cur].append(l)
                continue
            if re.match(r"set\s+-\w*e", l):
                seen_e = True
            if re.match(r"set\s+\+\w*e", l):
                seen_e = False
            m = re.match(r"trap\s+(.+?)\s+ERR\b|trap\s+(.+?)\s+(?:.*\b)?(?:ERR|EXIT)\b", l)
            if m:
                what = (m.group(1) or m.group(2)).strip("'\"")
                body = " ".join(funcs.get(what, [what]))
                trap = "CRASHED" in body and "{statuspath" in body
            if "{statuspath" in l:
                if "FINISHED" in l:
                    add("status", "the status FINISHED is written before the pipeline has run")
                if "RUNNING" in l:
                    running = True
        if not seen_e:
            add("status", "the script goes on after the pipeline failed")
        if not trap:
            add("status", "a failing pipeline does not leave the status CRASHED")
        if not running:
            add("status", "the status RUNNING is not written before the pipeline starts, so the status of an earlier run stays")
        fin = [i for i, l in enumerate(after) if "FINISHED" in l and "{statuspath" in l]
        mv = [i for i, l in enumerate(after) if re.match(r"(mv|cp|rsync)\b", l)]
        if not fin:
            add("status", "the status FINISHED is never written")
        if any(re.match(r"mv\b|cp\b|rm\b", l) and ("{finaldir" in l or "{workdir" in l) for l in before):
            add("move", "output is moved before the pipeline has run")
        if not mv:
            add("move", "output is not moved to its final directory")
        if fin and mv and min(mv) < min(fin):
            add("move", "the directory is moved before the status is written into it")
        for l in after:
            m = re.search(r"\{usetemp[^}]*\}\"?\s*(-eq|-ne|-gt|==|=|!=|>)\s*\"?(\d)", l)
            if m and (m.group(1) in ("-eq", "==", "=")) != (m.group(2) != "0") and m.group(1) not in ("-gt", ">"):
                add("move", "output is moved when no temporary directory is used, and left when one is")
        for i in mv:
            if not any("{usetemp" in l for l in after[: i + 1]):
                add("move", "output is moved although no temporary directory is used")
            a = [f for f, _ in fields(after[i])]
            if a[:2] != ["workdir", "finaldir"]:
                add("move", "the temporary directory is not what is moved to the final one")


def temp_flag(repo, m, res):
    """The flag that makes the script move its output is set where the directories differ, and only there."""
    n = 0
    for f in repo.all_functions():
        if f.module is not m:
            continue
        for x in ast.walk(f.node):
            vals = []
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "usetemp" for t in x.targets):
                vals.append(x.value)
            elif isinstance(x, ast.keyword) and x.arg == "usetemp":
                vals.append(x.value)
            elif isinstance(x, ast.Dict):
                vals += [v for k, v in zip(x.keys, x.values) if isinstance(k, ast.Constant) and k.value == "usetemp"]
            for v in vals:
                n += 1
                s = True
                if isinstance(v, ast.Name):
                    d = [y.value for y in ast.walk(f.node) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in y.targets)]
                    v = d[0] if len(d) == 1 else v
                while True:
                    if isinstance(v, ast.IfExp) and isinstance(v.body, ast.Constant) and isinstance(v.orelse, ast.Constant):
                        if bool(v.body.value) == bool(v.orelse.value):
                            break
                        s = s == bool(v.body.value)
                        v = v.test
                    elif isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                        s = not s
                        v = v.operand
                    elif isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.func, ast.Name) and v.func.id in ("int", "bool"):
                        v = v.args[0]
                    else:
                        break
                if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.Eq, ast.NotEq)):
                    if isinstance(v.ops[0], ast.Eq) == s:
                        res.add("script-value", f.qualname, "usetemp", f.loc(x), "output is moved when no temporary directory is used, and left when one is")
    return n


def requests(repo, m, res):
    """Whoever queues a job passes on what was asked of it."""
    q = repo.func(f"{MOD}.queue")
    n = 0
    for f in repo.all_functions():
        if f.module is m:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and repo.resolve_expr(x.value.func, m, f) in ("subprocess.run", "subprocess.call", "subprocess.Popen", "os.system"):
                    ck = next((k.value for k in x.value.keywords if k.arg in ("check", None)), None)
                    if ck is None or isinstance(ck, ast.Constant) and not ck.value:
                        res.add("submission", f.qualname, "unchecked", f.loc(x), "a submission that fails goes unnoticed")
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            if repo.resolve_expr(c.func, f.module, f) is not q or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            n += 1
            got = dict(zip(q.params(), c.args))
            got.update({k.arg: k.value for k in c.keywords})
            for p in f.all_params():
                if p not in q.all_params():
                    continue
                names = {x.id for x in ast.walk(got[p]) if isinstance(x, ast.Name)} if p in got else set()
                for _ in range(3):
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in y.targets):
                            names |= {x.id for x in ast.walk(y.value) if isinstance(x, ast.Name)}
                if p not in names:
                    res.add("request-not-passed-on", f.qualname, p, f.loc(c), f"{p} of the request does not reach the routine that queues the job")
            if "submit" not in f.all_params():
                v = got.get("submit")
                if v is None or isinstance(v, ast.Constant) and not v.value:
                    res.add("request-not-passed-on", f.qualname, "submit", f.loc(c), "the job is not submitted")
    return n


def choices(repo, m, res):
    """Defaults of the request are values the pipeline's own command line accepts."""
    allowed, n = {}, 0
    trees = [x.tree for x in repo.modules.values() if x.name.startswith("caput.pipeline.runner")]
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) and c.args[0].value.startswith("--"):
                ty = next((k.value for k in c.keywords if k.arg == "type"), None)
                if isinstance(ty, ast.Call) and ty.args and isinstance(ty.args[0], (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in ty.args[0].elts):
                    allowed.setdefault(c.args[0].value[2:].replace("-", "_"), set()).update(str(x.value).lower() for x in ty.args[0].elts)
    for f in repo.all_functions():
        if f.module.name.startswith("caput.pipeline.runner"):
            a = f.node.args
            pairs = [*zip(reversed([*a.posonlyargs, *a.args]), reversed(a.defaults)), *zip(a.kwonlyargs, a.kw_defaults)]
            for p, d in pairs:
                if p.arg in allowed and isinstance(d, ast.Constant) and isinstance(d.value, str):
                    n += 1
                    if d.value.lower() not in allowed[p.arg]:
                        res.add("default-not-accepted", f.qualname, p.arg, f.loc(), f"the default {d.value!r} of {p.arg} is not among the values the command line accepts")
    return n


def constants_read(repo, m):
    """Constant keys looked up anywhere in the module (subscripts, get, in)."""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant):
            out.add(("item", n.slice.value, n.lineno))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args and isinstance(n.args[0], ast.Constant):
            out.add(("get", n.args[0].value, n.lineno))
    return out


def entries_read(repo, m, var):
    """Entries of a system's table the module reads, as opposed to keys of the user's configuration."""
    out = set()

    def is_system(e, names):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and (x.id == var or x.id in names):
                return True
        return False

    for f in repo.all_functions():
        if f.module is not m:
            continue
        names = set()
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, (ast.Subscript, ast.Call, ast.Name, ast.Attribute)) and is_system(v.value if isinstance(v, ast.Subscript) else v.func if isinstance(v, ast.Call) else v, names):
                        names.add(n.targets[0].id)
                elif isinstance(n, ast.For):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name) and is_system(n.iter, names):
                            names.add(x.id)
        # parameters that receive a system's table, and tables read from a file of systems
        for g in repo.all_functions():
            if g.module is m:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and repo.resolve_expr(n.func, m, g) is f:
                        for p, a in zip(f.params(), n.args):
                            if is_system(a, {"system_config"}):
                                names.add(p)
        for n in ast.walk(f.node):
            k = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and is_system(n.value, names):
                k = n.slice.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant) and is_system(n.func.value, names):
                k = n.args[0].value
            if isinstance(k, str):
                out.add(k)
    # `conf["mail"]["types"]` of the tables as they are registered
    for kind, k, _ in constants_read(repo, m):
        if k in ("types", "options", "mail"):
            out.add(k)
    return out


GOOD = '''
set -e
function crash {{
    echo CRASHED > "{statuspath:s}"
}}
trap crash ERR
echo RUNNING > "{statuspath:s}"
{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} "{configpath:s}" &> "{logpath:s}"
echo FINISHED > "{statuspath:s}"
if [ {usetemp:d} -eq 1 ]
then
    mv "{workdir:s}" "{finaldir:s}"
fi
'''


def selftest():
    def n(text):
        res = Result()
        Rule(None, res).script("x", "x", text)
        return len(res.findings)

    yield "clean script", n(GOOD) == 0
    yield "no set -e", n(GOOD.replace("set -e\n", "")) > 0
    yield "no trap", n(GOOD.replace("trap crash ERR\n", "")) > 0
    yield "finished early", n(GOOD.replace("echo RUNNING", "echo FINISHED")) > 0
    yield "ignored failure", n(GOOD.replace('&> "{logpath:s}"', '&> "{logpath:s}" || true')) > 0
    yield "swapped move", n(GOOD.replace('mv "{workdir:s}" "{finaldir:s}"', 'mv "{finaldir:s}" "{workdir:s}"')) > 0
    yield "option lost", n(GOOD.replace("{psutil:s}", "")) > 0
    yield "fields", fields("a {b:d} {{c}} {d}") == [("b", "d"), ("d", "")]


def run(repo: Repo, tier="quick"):
    res = Result()
    rule = Rule(repo, res)
    m = repo.modules.get(MOD)
    if m is None:
        raise AnalysisError("scheduler module not found")
    var = "REGISTERED_SYSTEMS"
    rule.queue(var)
    rule.stats["flags"] = temp_flag(repo, m, res)
    rule.stats["requests"] = requests(repo, m, res)
    rule.stats["defaults"] = choices(repo, m, res)
    read = entries_read(repo, m, var)
    names = set()
    base = os.path.join(repo.root, "caput")
    for d, _, fs in os.walk(base):
        for x in sorted(fs):
            if x.endswith(".toml"):
                with open(os.path.join(d, x), "rb") as fh:
                    data = tomllib.load(fh)
                names |= set(data)
                rule.systems(os.path.relpath(os.path.join(d, x), repo.root), data, read)
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "REGISTERED_CLUSTERS" for t in st.targets) and isinstance(st.value, ast.Dict):
            for v in st.value.values:
                if isinstance(v, ast.Constant) and v.value not in names:
                    res.add("unknown-system", MOD, str(v.value), f"{m.path}:{v.lineno}", f"a cluster name stands for the system {v.value}, which is not registered")
    res.stats = {**rule.stats, "entries_read": len(read)}
    res.floors = {"scenarios": 15, "paths": 15, "requests": 1, "systems": 1, "placeholders": 10, "fillings": 2}
    res.explanation = (
        "The queueing routine was walked with its helpers in place for every combination of submission, checking, overwriting and mail switches; the file and command actions of each path were compared with "
        "what the switches and the existing job allow, and in which order. Every template of every registered system was compared with the keys surely present whenever it is filled in, and every script with the "
        "status protocol (RUNNING, then the pipeline, FINISHED and moving only after success, CRASHED otherwise)."
    )
    return res
