"""Automatic mutants for missing names: a branch no longer assigns, an initialisation is gone, an attribute or import is renamed."""
import ast, os, sys, random
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "auto16.py")).read()
a = src.index("def mutants():"); z = src.index("def run(src):")
exec(src[:a])

def kill(b, s, n):
    x, y = off(s, n.lineno, n.col_offset), off(s, n.end_lineno, n.end_col_offset)
    return (b[:x] + b"pass" + b[y:]).decode()

def names(n):
    return {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} if isinstance(n, ast.Assign) else set()

def mutants():
    rnd = random.Random(int(os.environ.get("SEED", 1)))
    for f, s in sorted(base.items()):
        if not f.endswith(".py") or "/tests/" in f: continue
        b = s.encode(); t = ast.parse(s)
        for fn in ast.walk(t):
            if isinstance(fn, ast.ClassDef):
                for m in fn.body:
                    if isinstance(m, ast.FunctionDef):
                        for n in ast.walk(m):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and rnd.random() < 0.12:
                                y = off(s, n.end_lineno, n.end_col_offset)
                                yield f, m.name, f"self.{n.attr}_ line {n.lineno}", (b[:y] + b"_x" + b[y:]).decode()
            if isinstance(fn, (ast.FunctionDef,)):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Assign) and names(n):
                        used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno > n.end_lineno}
                        others = {q for o in ast.walk(fn) if o is not n and isinstance(o, ast.Assign) for q in names(o)}
                        ps = {q.arg for q in [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs]}
                        if names(n) & used - ps and rnd.random() < (0.5 if names(n) & others else 0.05):
                            yield f, fn.name, f"no {'/'.join(names(n))} line {n.lineno}" + (" (other)" if names(n) & others else ""), kill(b, s, n)
            if isinstance(fn, (ast.Import, ast.ImportFrom)) and rnd.random() < 0.4:
                yield f, "import", f"no {ast.unparse(fn)[:50]} line {fn.lineno}", kill(b, s, fn)
exec(src[z:])
