#!/opt/venv/bin/python
"""mut.py PROP FILE OLD NEW [check args]: run a check against a scratch copy of /repo/pyqlaw with one edit"""
import os, subprocess, sys, tempfile
prop, fn, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut-")
subprocess.run(["cp", "-r", "/repo/pyqlaw", d + "/pyqlaw"], check=True)
p = f"{d}/pyqlaw/{fn}"
s = open(p).read()
assert old in s, "pattern not found"
open(p, "w").write(s.replace(old, new, 1))
env = dict(os.environ, PYQLAW_REPO=d)
r = subprocess.run(["/verif/check.py", prop] + sys.argv[5:], env=env, capture_output=True, text=True)
print("\n".join(l[:400] for l in r.stdout.splitlines()[-8:]), r.stderr[-800:], "exit", r.returncode)
subprocess.run(["rm", "-rf", d])
