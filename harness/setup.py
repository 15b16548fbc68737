"""Parse every specification and import the code under test once."""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def sany(p):
    r = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY", p],
                       cwd=vlib.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p, r.returncode, r.stdout


bad = 0
with ThreadPoolExecutor(6) as ex:
    for p, rc, out in ex.map(sany, sorted(glob.glob(vlib.SPEC + "/*.tla"))):
        if rc != 0 or "*** Errors" in out:
            bad += 1
            print(p, out[-1500:])
for d in (vlib.OUT, vlib.EVID):
    os.makedirs(d, exist_ok=True)
vlib.load_naima()
print("setup ok" if not bad else "setup FAILED")
sys.exit(1 if bad else 0)
