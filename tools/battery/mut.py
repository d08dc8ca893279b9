import sys,os,importlib; sys.path.insert(0,os.environ.get('VW','/verif')); sys.setrecursionlimit(20000)
from sa.core import Repo
base={}
for dp,dn,fn in os.walk('/repo/caput'):
    for f in fn:
        if f.endswith(('.py','.pyx','.hpp')):
            p=os.path.join(dp,f); base[os.path.relpath(p,'/repo')]=open(p).read()
def mut(rule, edits, name="", show=True):
    src=dict(base)
    for f,a,b in edits:
        assert src[f].count(a)>=1,(f,a,src[f].count(a)); src[f]=src[f].replace(a,b,1)
    m=importlib.import_module('sa.rules.'+rule)
    def rp(x):
        r=Repo(sources={k:v for k,v in x.items() if k.endswith('.py')}); r.sources=x; return r
    try: res=call(m,rp(src))
    except Exception as e: print(name,'ERR',repr(e)); return
    b=BASE.setdefault(rule,None)
    if b is None:
        b=BASE[rule]={f.key for f in call(m,rp(base)).findings}
    new=[f.key for f in res.findings if f.key not in b]
    print(('CAUGHT' if new else 'quiet ')+' '+name, new[:2] if show else '')
BASE={}
def call(m,r):
    import inspect
    return m.run(r,'quick') if len(inspect.signature(m.run).parameters)>1 else m.run(r)
QUEUE=[]
def mutq(rule,edits,name=""):
    """As mut, but run in parallel by done()."""
    QUEUE.append((rule,edits,name))
def hd(x): QUEUE.append((None,None,x))
def _q(j):
    rule,edits,name=j
    if rule is None: return j,None
    src=dict(base)
    for f,a,b in edits:
        if a not in src[f]: return j,'NO '+repr((f,a))
        src[f]=src[f].replace(a,b,1)
    m=importlib.import_module('sa.rules.'+rule)
    r=Repo(sources={k:v for k,v in src.items() if k.endswith('.py')}); r.sources=src
    try: return j,[f.key for f in call(m,r).findings]
    except Exception as e:
        import traceback; return j,'ERR '+traceback.format_exc()[-300:]
def done():
    import multiprocessing as mp
    with mp.get_context('fork').Pool(int(os.environ.get('J','6'))) as p:
        b={r:set(p.apply(_q,((r,[],''),))[1]) for r in {j[0] for j in QUEUE if j[0]}}
        exp=''
        for (r,e,n),k in p.imap(_q,QUEUE):
            if r is None: print(n,flush=True); exp=n; continue
            if isinstance(k,str): print('!!! ',n,k[:400]); continue
            new=[x for x in k if x not in b[r]]
            bad=('bug' in exp and not new) or ('refactor' in exp and new)
            print(('*** ' if bad else '    ')+('CAUGHT' if new else 'quiet ')+' '+n,new[:2],flush=True)


def _tree(rule, edits):
    """Keys found on a copy of the package with the edits made: for rules that read other files than Python sources."""
    import shutil, tempfile
    m = importlib.import_module("sa.rules." + rule)
    d = tempfile.mkdtemp()
    try:
        shutil.copytree("/repo/caput", d + "/caput", ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        for x in ("pyproject.toml", "setup.py"):
            if os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, d)
        for f, a, b in edits:
            s = open(f"{d}/{f}").read()
            if a not in s:
                return "no " + repr(a), []
            open(f"{d}/{f}", "w").write(s.replace(a, b, 1))
        res = m.run(Repo(d))
        return [f.key for f in res.findings], [k for k, v in res.floors.items() if res.stats.get(k, 0) < v]
    except Exception as e:
        return repr(e), []
    finally:
        shutil.rmtree(d)


JOBS = []


def mutd(rule, edits, name="", show=True):
    JOBS.append((rule, edits, name))


def flush():
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        bases = {r: ex.submit(_tree, r, []) for r in {j[0] for j in JOBS}}
        for (r, e, n), fu in [(j, ex.submit(_tree, j[0], j[1])) if j[1] else (j, None) for j in JOBS]:
            if fu is None:
                print(n)
                continue
            keys, low = fu.result()
            if isinstance(keys, str):
                print("ERR", n, keys)
                continue
            new = [k for k in keys if k not in set(bases[r].result()[0])]
            print(("CAUGHT" if new else "quiet ") + " " + n, new[:2], low or "", flush=True)
