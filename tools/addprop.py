"""Insert a property entry (python dict source on stdin) before the end of PROPS."""
import sys
p = "/verif/tools/props.py"
s = open(p).read()
body = sys.stdin.read().rstrip() + "\n"
s = s.replace("]\n\nNOT_APPLICABLE", body + "]\n\nNOT_APPLICABLE", 1)
open(p, "w").write(s)
r = "/verif/sa/registry.py"
t = open(r).read().rstrip()
assert t.endswith("}")
t = t[:-1] + f'    "{sys.argv[1]}": ("{sys.argv[2]}", "other", "{sys.argv[3]}"),\n}}\n'
open(r, "w").write(t)
