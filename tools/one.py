# run one case in-process with stack dump on alarm
import sys,faulthandler; sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
faulthandler.dump_traceback_later(int(sys.argv[3]), exit=True)
from vsym import case as C
import time
r=C.run_case("checks."+sys.argv[1].lower(), sys.argv[2],1,"quick",time.time()+700)
st=r["stats"]
print({k:st[k] for k in ("paths","obligations","discharged","queries","solver_s")}, r["inconclusive"][:3], r["validated"], str(r["failures"])[:1500], r["mismatches"][:1], st["labels"])
