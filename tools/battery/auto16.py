"""Automatic mutants of argument passing: drop a keyword that hands on a parameter, replace it by None/False, swap two arguments."""
import ast, os, sys, importlib
from concurrent.futures import ProcessPoolExecutor
V = os.environ.get("VW", "/verif")
sys.path.insert(0, V); sys.setrecursionlimit(20000); sys.dont_write_bytecode = True
from sa.core import Repo
RULES = sys.argv[1].split(",")
base = {}
for dp, dn, fn in os.walk("/repo/caput"):
    for f in fn:
        if f.endswith((".py", ".pyx", ".hpp", ".pyi")):
            p = os.path.join(dp, f); base[os.path.relpath(p, "/repo")] = open(p).read()
ALLP = {}
for f, s in base.items():
    if f.endswith(".py"):
        for n in ast.walk(ast.parse(s)):
            if isinstance(n, ast.FunctionDef):
                ALLP.setdefault(n.name, set()).update(a.arg for a in [*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs])
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                        ALLP.setdefault(n.name, set()).update(a.arg for a in [*m.args.args, *m.args.kwonlyargs])

def off(s, line, col):
    ls = s.split("\n"); return sum(len(x.encode()) + 1 for x in ls[: line - 1]) + col

def mutants():
    for f, s in sorted(base.items()):
        if not f.endswith(".py") or "/tests/" in f: continue
        b = s.encode()
        t = ast.parse(s)
        for fn in ast.walk(t):
            if not isinstance(fn, ast.FunctionDef): continue
            ps = {a.arg for a in [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs]} - {"self", "cls"}
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call): continue
                name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else "super" if False else None
                if name not in ALLP: continue
                for k in c.keywords:
                    if k.arg and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(k.value)):
                        a, z = off(s, k.lineno, k.col_offset), off(s, k.value.end_lineno, k.value.end_col_offset)
                        e = z
                        while b[e:e+1].isspace(): e += 1
                        if b[e:e+1] == b",": e += 1
                        yield f, fn.name, f"drop {k.arg} of {name} line {k.lineno}", (b[:a] + b[e:]).decode()
                        va = off(s, k.value.lineno, k.value.col_offset)
                        yield f, fn.name, f"{k.arg}=None of {name} line {k.lineno}", (b[:va] + b"None" + b[z:]).decode()
                for i, x in enumerate(c.args):
                    if isinstance(x, ast.Name) and x.id in ps:
                        a, z = off(s, x.lineno, x.col_offset), off(s, x.end_lineno, x.end_col_offset)
                        yield f, fn.name, f"arg{i} {x.id}->None of {name} line {x.lineno}", (b[:a] + b"None" + b[z:]).decode()

def run(src):
    out = {}
    for r in RULES:
        m = importlib.import_module("sa.rules." + r)
        rp = Repo(sources={k: v for k, v in src.items() if k.endswith(".py")}); rp.sources = src
        try:
            out[r] = {f.key for f in m.run(rp, "quick").findings}
        except Exception as e:
            out[r] = {"ERR " + repr(e)}
    return out

def one(j):
    f, fn, what, s = j
    try: ast.parse(s)
    except SyntaxError: return None
    return run({**base, f: s})

if __name__ == "__main__":
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    js = list({(f, a, w, s) for f, a, w, s in mutants() if pat in f + " " + a + " " + w}); js.sort()
    b = run(base)
    n = c = 0
    with ProcessPoolExecutor(int(os.environ.get("J", 8))) as ex:
        for j, r in zip(js, ex.map(one, js, chunksize=4)):
            if r is None: continue
            n += 1
            new = {x for k in r for x in r[k] - b[k]}
            if new: c += 1
            else: print("MISS", j[0], j[1], j[2], flush=True)
    print(c, "of", n)
