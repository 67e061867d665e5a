#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample on the real code; exit 1 if it fails there."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsym import case  # noqa: E402
d = json.load(open(sys.argv[1]))
mod = importlib.import_module(d["module"])
c = {c.name: c for c in mod.CASES}[d["case"]]
res, err = case.replay(d["module"], c, [d["values"]])
print(json.dumps(res, indent=1) if res else err)
sys.exit(1 if res and (res[0]["failed"] or res[0]["exception"]) else 0)
