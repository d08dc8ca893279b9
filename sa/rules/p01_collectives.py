"""P01: every process runs the same collective sequence."""

from ..collectives import Collectives
from ..core import Repo
from ..report import Result

POS = """
from mpi4py import MPI
def f(comm, x):
    if comm.rank == 0:
        x = x + 1
        comm.Barrier()
    return x
def g(comm, items):
    for i in range(comm.rank):
        comm.allreduce(i)
def h(comm, x):
    if comm.rank > 2:
        return None
    return comm.bcast(x)
def k(comm, local_shape):
    if local_shape[0] == 0:
        return None
    return comm.allgather(1)
def m(comm, items):
    for i in items:
        if comm.rank == i:
            break
        comm.Barrier()
def n(comm, path):
    try:
        x = open(path).read()
    except OSError:
        return None
    return comm.bcast(x)
class C:
    def __init__(self, comm):
        self.comm = comm
        self.f = open("x") if comm.rank == 0 else None
    def o(self):
        if self.f is not None:
            self.comm.Barrier()
"""
NEG = """
def a(comm, path):
    try:
        x = open(path).read()
    except OSError:
        x = None
    return comm.allreduce(x)
def b(comm, x):
    if comm.rank == 0:
        x = 1
    if comm.size > 1:
        comm.Barrier()
    return x
def c(comm, items):
    for i in items:
        if i < 0:
            break
        comm.Barrier()
"""


def selftest():
    r = Repo(sources={"caput/x.py": POS})
    got = {v[0].name for v in Collectives(r).run().values()}
    neg = Collectives(Repo(sources={"caput/x.py": NEG})).run()
    return [(n, n in got) for n in "fghkmno"] + [("negatives", not neg)]


def run(repo, tier):
    an = Collectives(repo)
    res = Result()
    for key, (f, node, rule, msg) in an.run().items():
        res.add(rule, f.qualname, msg.split(" :: ")[0], f.loc(node), msg)
    s = an.stats
    res.stats = {k: (len(v) if isinstance(v, set) else v) for k, v in s.items()}
    res.stats["may_collective_functions"] = len(an._may)
    res.floors = {"functions": 400, "collective_sites": 30, "branches_with_collectives": 8}
    res.explanation = (
        "Every function of the package was analysed in each rank-taint context reached; for each branch, "
        "loop or comprehension whose outcome can differ between processes the collective traces of both "
        "outcomes (including everything that follows, callees spliced in) were compared for equality."
    )
    res.assumptions = [
        "function arguments are the same on every process unless a caller passes a rank-dependent value",
        "paths that end by raising are outside the rule",
    ]
    return res
