"""P24: a moment in time means the same whatever time zone the machine runs in.

Every datetime is given a set of possible kinds: *naive* (no zone attached: by the library's convention UTC), *utc* and *zone*
(a zone other than UTC).  The kinds are propagated along every path; operations that bring in the machine's own zone, that throw away or
overwrite a zone that was given, that print another zone's clock as UTC, or that mix zoned and zone-less values are reported.
"""

import ast

from ..core import Repo, dotted
from ..flow import NONE, Client, Engine, Budget, alts, is_const, mk
from ..report import Result

ALL = frozenset({"naive", "utc", "zone"})
NAIVE, UTC, ZONE = frozenset({"naive"}), frozenset({"utc"}), frozenset({"zone"})
LOCAL = {
    "time.localtime": "takes the machine's zone", "time.mktime": "takes the machine's zone", "time.ctime": "prints in the machine's zone",
    "datetime.date.today": "today in the machine's zone", "datetime.date.fromtimestamp": "takes the machine's zone", "datetime.datetime.today": "takes the machine's zone",
    "time.tzset": "changes the zone of the process", "tzlocal.get_localzone": "takes the machine's zone", "dateutil.tz.tzlocal": "takes the machine's zone", "dateutil.tz.gettz": None,
}
LOCAL = {k: v for k, v in LOCAL.items() if v}
LOCAL_VALUES = {"time.timezone", "time.altzone", "time.tzname", "time.daylight"}
UTCS = {"datetime.timezone.utc", "datetime.UTC", "skyfield.api.utc", "skyfield.timelib.utc", "pytz.utc", "pytz.UTC", "dateutil.tz.UTC"}
FIELDS = {"timetuple", "date", "time", "isocalendar", "toordinal", "weekday", "isoweekday", "timetz"}
VALS = {"hour", "minute", "second", "day", "month", "year", "microsecond"}


def gname(t):
    return t.a[0] if t.k == "g" and isinstance(t.a[0], str) else None


def tz_kind(t):
    out = frozenset()
    for x in alts(t):
        n = gname(x)
        if n in UTCS:
            out |= UTC
        elif x is NONE:
            out |= NAIVE
        elif x.k == "call" and (gname(x.a[1]) or "").split(".")[-1] in ("ZoneInfo", "timezone", "gettz", "tzutc"):
            a = x.a[2]
            if a and is_const(a[0]) and str(a[0].a[1]).upper() in ("UTC", "ETC/UTC") or (gname(x.a[1]) or "").endswith("tzutc"):
                out |= UTC
            elif a and a[0].k == "call" and (gname(a[0].a[1]) or "").endswith("timedelta") and (not a[0].a[2] and not a[0].a[3] or all(is_const(y) and not y.a[1] for y in a[0].a[2])):
                out |= UTC
            else:
                out |= ZONE
        else:
            out |= ZONE
    return out


class Times(Client):
    max_states = 24
    max_depth = 4

    def __init__(self, res, funcs_of_interest):
        self.res = res
        self.found = {}
        self.uses = set()
        self.mods = funcs_of_interest

    def initial(self, f):
        return None

    def import_may_fail(self, eng, node):
        # a package the module needs to be loaded at all is there
        top = (node.module or "").split(".")[0] if isinstance(node, ast.ImportFrom) else node.names[0].name.split(".")[0]
        for st in eng.func.module.tree.body:
            if isinstance(st, ast.Import) and any(a.name.split(".")[0] == top for a in st.names):
                return False
            if isinstance(st, ast.ImportFrom) and not st.level and (st.module or "").split(".")[0] == top:
                return False
        return True

    def may_raise(self, eng, node, fn, callee):
        # what only guards against a missing package is left by imports alone
        n, tr = node, None
        while n is not None:
            p = eng.repo.parents.get(n)
            if isinstance(p, ast.Try) and n in p.body:
                names = [dotted(h.type) or "" for h in p.handlers if h.type is not None]
                return not (p.handlers and len(names) == len(p.handlers) and all(x.split(".")[-1] in ("ImportError", "ModuleNotFoundError") for x in names) and not p.finalbody)
            n = p
        return super().may_raise(eng, node, fn, callee)

    def inline(self, eng, callee, depth):
        return callee.module.rel in self.mods

    # -- kinds ------------------------------------------------------------------
    def kind(self, eng, st, t, depth=0):
        """(possible kinds, known to be a datetime); no kind left: the path cannot be taken"""
        ks, known = self.kind0(eng, st, t, depth)
        for f, v in st.facts.items():
            if f.k == "cmp" and f.a[0] == "is" and f.a[2] is NONE and self.zone_of(f.a[1], t):
                ks, known = ks & (NAIVE if v else frozenset({"utc", "zone"})), True
            elif self.zone_of(f, t):
                ks, known = ks & (frozenset({"utc", "zone"}) if v else NAIVE), True
            elif f.k == "cmp" and f.a[0] in ("is", "==") and self.zone_of(f.a[1], t) and gname(f.a[2]) in UTCS and v:
                ks, known = ks & UTC, True
        return ks, known

    def kind0(self, eng, st, t, depth):
        if depth > 12:
            return ALL, False
        if t.k == "phi":
            ks, kn = frozenset(), True
            for x in t.a[0]:
                k, n = self.kind(eng, st, x, depth + 1)
                ks |= k
                kn &= n
            return ks, kn
        if t.k == "call":
            _, fn, args, kws = t.a
            kw = dict(kws)
            n = gname(fn)
            if fn.k == "g" and n is None:
                # a routine of the library that was not followed this deep: it is judged from closer by
                return frozenset(), False
            if n is None and fn.k == "attr" and gname(fn.a[0]):
                n = f"{gname(fn.a[0])}.{fn.a[1]}"
            if n in ("datetime.datetime.fromtimestamp", "datetime.datetime.now"):
                i = 1 if n.endswith("fromtimestamp") else 0
                tz = args[i] if len(args) > i else kw.get("tz")
                return (tz_kind(tz) if tz is not None else NAIVE), True
            if n in ("datetime.datetime.utcnow", "datetime.datetime.utcfromtimestamp", "datetime.datetime.today"):
                return NAIVE, True
            if n == "datetime.datetime.strptime":
                f = args[1] if len(args) > 1 else kw.get("format")
                return (NAIVE if f is not None and is_const(f) and "%z" not in str(f.a[1]) else frozenset({"naive", "zone", "utc"})), True
            if n in ("datetime.datetime.fromisoformat",):
                return ALL, True
            if n in ("datetime.datetime",):
                tz = args[7] if len(args) > 7 else kw.get("tzinfo")
                return (tz_kind(tz) if tz is not None else NAIVE), True
            if n == "datetime.datetime.combine":
                tz = args[2] if len(args) > 2 else kw.get("tzinfo")
                return (tz_kind(tz) if tz is not None else ALL), True
            if fn.k == "attr":
                if fn.a[1] == "replace" and not args and kw:
                    if "tzinfo" in kw:
                        return tz_kind(kw["tzinfo"]), True
                    return self.kind(eng, st, fn.a[0], depth + 1)[0], True
                if fn.a[1] == "astimezone":
                    tz = args[0] if args else kw.get("tz")
                    return (tz_kind(tz) if tz is not None else ZONE), True
                if fn.a[1] in ("utc_datetime", "utc_datetime_and_leap_second"):
                    return UTC, True
                if fn.a[1] in ("to_datetime", "astype", "tolist", "item", "flatten", "ravel", "copy"):
                    return self.kind(eng, st, fn.a[0], depth + 1)
        if t.k == "bin" and t.a[0] in ("+", "-", "Add", "Sub"):
            a, an = self.kind(eng, st, t.a[1], depth + 1)
            if an:
                b, bn = self.kind(eng, st, t.a[2], depth + 1)
                if not bn:
                    return a, True
        return ALL, False

    @staticmethod
    def zone_of(x, t):
        if x.k == "attr" and x.a[1] == "tzinfo":
            return x.a[0] is t
        return x.k == "call" and x.a[1].k == "attr" and x.a[1].a[1] in ("utcoffset", "tzname") and x.a[1].a[0] is t

    # -- monitors ---------------------------------------------------------------
    def bad(self, eng, node, rule, what):
        f = eng.func
        self.found.setdefault((f.qualname, rule, ast.unparse(node)[:80]), (f.loc(node), what))

    def on_call(self, eng, st, node, fn, args, kwargs, callee):
        kw = dict(kwargs) if not isinstance(kwargs, dict) else kwargs
        n = gname(fn)
        if n is None and fn.k == "attr" and gname(fn.a[0]):
            n = f"{gname(fn.a[0])}.{fn.a[1]}"
        if n and n.startswith("datetime."):
            self.uses.add(id(node))
        if n in LOCAL:
            self.bad(eng, node, "local-zone", f"{n} {LOCAL[n]}")
        if n in ("datetime.datetime.fromtimestamp", "datetime.datetime.now"):
            i = 1 if n.endswith("fromtimestamp") else 0
            tz = args[i] if len(args) > i else kw.get("tz")
            if tz is None and None in kw:
                pass
            elif tz is None or any(x is NONE for x in alts(tz)):
                self.bad(eng, node, "local-zone", f"{n} without a zone takes the machine's")
        if n in ("time.strftime", "time.asctime") and len(args) < (2 if n.endswith("strftime") else 1):
            self.bad(eng, node, "local-zone", f"{n} without a time prints the machine's")
        if fn.k == "attr":
            base, meth = fn.a
            if meth in ("timestamp", "astimezone", "strftime", "isoformat", "replace") or meth in FIELDS:
                ks, known = self.kind(eng, st, base)
                if meth == "timestamp" and not args and "naive" in ks:
                    self.uses.add(id(node))
                    self.bad(eng, node, "naive-as-local", "a datetime without a zone is taken to be in the machine's zone")
                elif meth == "astimezone":
                    self.uses.add(id(node))
                    if "naive" in ks:
                        self.bad(eng, node, "naive-as-local", "a datetime without a zone is taken to be in the machine's zone")
                    elif not args and not kw:
                        self.bad(eng, node, "local-zone", "converted to the machine's zone")
                elif meth == "replace" and "tzinfo" in kw:
                    self.uses.add(id(node))
                    tk = tz_kind(kw["tzinfo"])
                    if "zone" in ks and tk != ZONE or "utc" in ks and "zone" in tk:
                        self.bad(eng, node, "zone-overwritten", "the zone of a datetime that may have one is overwritten, which changes the moment it stands for")
                elif meth == "strftime" and args and is_const(args[0]) and isinstance(args[0].a[1], str):
                    self.uses.add(id(node))
                    if "zone" in ks and "%z" not in args[0].a[1] and "%Z" not in args[0].a[1]:
                        self.bad(eng, node, "other-clock", "the clock reading of another zone is printed as if it were UTC")
                elif meth in FIELDS and not args and "zone" in ks and (known or meth == "timetuple") or meth == "replace" and not args and set(kw) & VALS and "zone" in ks:
                    self.uses.add(id(node))
                    self.bad(eng, node, "other-clock", "calendar fields are taken from a datetime that may be in another zone")
            elif meth in ("from_datetime",) and args:
                ks, known = self.kind(eng, st, args[0])
                if "naive" in ks and known:
                    self.bad(eng, node, "mixed", "a datetime without a zone where one is needed")
        return None

    def on_binop(self, eng, st, op, x, y, node):
        if op not in ("Sub", "Lt", "LtE", "Gt", "GtE"):
            return
        a, an = self.kind(eng, st, x)
        b, bn = self.kind(eng, st, y)
        if not a or not b:
            return
        zoned = frozenset({"utc", "zone"})
        if bn and ("naive" in a and b & zoned and (an or not b & NAIVE) or "naive" in b and a & zoned and an):
            self.bad(eng, node, "mixed", "a datetime with a zone and one without are compared or subtracted, which raises")

    def on_load(self, eng, st, term, node):
        if term.k == "attr" and term.a[1] in VALS:
            ks, known = self.kind(eng, st, term.a[0])
            if known and "zone" in ks:
                self.bad(eng, node, "other-clock", "calendar fields are taken from a datetime that may be in another zone")
        return st


def run(repo: Repo, tier="quick"):
    res = Result(stats={"functions": 0, "functions_with_times": 0, "datetime_operations": 0, "budget_exceeded": 0})
    words = ("datetime", "tzinfo", "localtime", "mktime", "strftime", "gmtime", "timestamp(")
    mods = {m.rel for m in repo.modules.values() if not m.rel.endswith(".pyi") and any(w in m.source for w in words)}
    c = Times(res, mods)
    for f in repo.all_functions():
        if f.module.rel.endswith(".pyi"):
            continue
        res.stats["functions"] += 1
        # the names that bring in the machine's zone, wherever they stand
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                r = repo.resolve_expr(n, f.module, f)
                if isinstance(r, str) and (r in LOCAL_VALUES or r in LOCAL):
                    res.add("local-zone", f.qualname, r, f.loc(n), f"{r} depends on the zone of the machine")
        if f.module.rel not in mods or not any(w in ast.get_source_segment(f.module.source, f.node) for w in [*words, "_unix", "astimezone", "timetuple"]):
            continue
        res.stats["functions_with_times"] += 1
        e = Engine(repo, c)
        e.max_steps = 60000
        try:
            e.run(f)
        except Budget:
            res.stats["budget_exceeded"] += 1
    for (q, rule, what), (loc, msg) in sorted(c.found.items()):
        res.add(rule, q, what, loc, f"{what}: {msg}")
    res.stats["datetime_operations"] = len(c.uses)
    res.floors = {"functions": 400, "functions_with_times": 8, "datetime_operations": 4}
    res.explanation = (
        "Every datetime is tracked as zone-less (UTC by the library's convention), UTC or in another zone, on every path and through helpers, using the tests of its zone made on that path. Reported: operations that bring in the "
        "machine's own zone, that overwrite or drop a zone that was given, that read calendar fields of another zone as UTC, and differences or comparisons of zoned with zone-less values."
    )
    res.assumptions = ["a datetime without a zone is in UTC", "packages a module imports when it is loaded can be imported again inside it", "datetimes handed to third-party code are not followed further"]
    return res


_H = "from datetime import datetime, timezone, timedelta\nimport time\n"
POS = {
    "now": "def f():\n    return datetime.now()\n",
    "from": "def f(t):\n    return datetime.fromtimestamp(t)\n",
    "stamp": "def f(dt):\n    return dt.timestamp()\n",
    "stamp2": "def f(s):\n    return datetime.strptime(s, '%Y').timestamp()\n",
    "over": "def f(dt):\n    dt = dt.replace(tzinfo=timezone.utc)\n    return dt.timestamp()\n",
    "over2": "def f(dt):\n    if dt.tzinfo is not None:\n        dt = dt.replace(tzinfo=timezone.utc)\n    return dt\n",
    "astz": "def f(dt):\n    return dt.astimezone(timezone.utc)\n",
    "z": "def f(dt):\n    return dt.strftime('%Y%m%dT%H%M%SZ')\n",
    "mk": "def f(dt):\n    return time.mktime(dt.utctimetuple())\n",
    "tt": "import calendar\ndef f(dt):\n    return calendar.timegm(dt.timetuple())\n",
    "mix": "def g(dt):\n    return (dt - datetime.fromtimestamp(0, timezone.utc)).total_seconds()\n",
    "mix2": "def g(s):\n    return datetime.utcnow() - datetime.now(timezone.utc)\n",
    "helper": "def _u(dt):\n    return dt\ndef f(dt):\n    return _u(dt).timestamp()\n",
    "off": "def f(t):\n    return t - time.timezone\n",
}
NEG = {
    "now": "def f():\n    return datetime.now(timezone.utc)\n",
    "from": "def f(t):\n    return datetime.fromtimestamp(t, tz=timezone.utc)\n",
    "stamp": "def f(dt):\n    if dt.tzinfo is None:\n        dt = dt.replace(tzinfo=timezone.utc)\n    return dt.timestamp()\n",
    "stamp2": "def _u(dt):\n    return dt if dt.tzinfo is not None else dt.replace(tzinfo=timezone.utc)\ndef f(dt):\n    return _u(dt).timestamp()\n",
    "stamp3": "def _u(dt):\n    if dt.tzinfo:\n        return dt\n    return dt.replace(tzinfo=timezone.utc)\ndef f(dt):\n    return (_u(dt) - datetime(1970, 1, 1, tzinfo=timezone.utc)) / timedelta(seconds=1)\n",
    "z": "def f(dt):\n    if dt.tzinfo is not None:\n        dt = dt.astimezone(timezone.utc)\n    return dt.strftime('%Y%m%dT%H%M%SZ')\n",
    "day": "def f(t):\n    dt = datetime.fromtimestamp(t, timezone.utc)\n    d = dt.replace(hour=0, minute=0)\n    return (dt - d).total_seconds()\n",
    "delta": "def f(dt):\n    dt = datetime.now(timezone.utc)\n    return dt - timedelta(seconds=3) > datetime.now(timezone.utc)\n",
    "tt": "import calendar\ndef f(dt):\n    return calendar.timegm(dt.utctimetuple())\n",
    "str": "def f(s, d):\n    return s.replace('a', 'b'), d.date(), d.time()\n",
}


def selftest():
    out = []
    for k, src in POS.items():
        out.append((f"pos {k}", bool(run(Repo(sources={"caput/x.py": _H + src})).findings)))
    for k, src in NEG.items():
        r = run(Repo(sources={"caput/x.py": _H + src})).findings
        out.append((f"neg {k} {[x.key for x in r]}", not r))
    return out
