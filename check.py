#!/opt/venv/bin/python
"""check.py <property> [case ...]"""
import os
import sys
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONPATH"] = os.path.dirname(os.path.abspath(__file__))
sys.setrecursionlimit(100000)
from vsym import case  # noqa: E402
if sys.argv[1] == "--selftest":
    import numpy, sympy, numba  # noqa: F401,E401
    from vsym import lower, algebra, engine  # noqa: F401
    print("ok")
    sys.exit(0)
prop = sys.argv[1]
sys.exit(case.main(prop, "checks." + prop.lower(), sys.argv[2:]))
