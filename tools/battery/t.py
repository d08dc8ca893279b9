import sys,time,importlib; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.core import Repo
m=importlib.import_module('sa.rules.'+sys.argv[1]); t=time.time()
r=Repo(sys.argv[2] if len(sys.argv)>2 else None)
for n,ok in getattr(m,'selftest',lambda:[])():
    if not ok: print("SELFTEST FAIL",n)
res=m.run(r,'quick')
for f in res.findings: print(f.loc,f.key,'::',f.message)
print(res.stats, round(time.time()-t,2))
