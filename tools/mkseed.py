#!/usr/bin/env python3
"""mkseed: write a planted change from a python spec file (id, prop, edits, needs, what, demo, mpi)."""
import json, os, subprocess, sys
def mk(id, prop, edits, needs, what, demo, mpi=0, timeout=120):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = f"/repo/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(demo.lstrip())
    run = 'timeout -k 5 100 "$PY" "$D/demo.py"'
    if mpi:
        run = (f'timeout -k 5 {timeout} mpirun --oversubscribe --bind-to none --mca btl self,vader --mca plm isolated '
               f'--mca mpi_yield_when_idle 1 --mca orte_tmpdir_base "$W" -np {mpi} "$PY" "$D/demo.py"')
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W DEMO_SCRATCH=$W PYTHONPATH=/repo
cd "$W"
{run}
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    return d
