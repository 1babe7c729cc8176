"""setup_cmd: nothing is kept between runs; this only makes sure that the tools are there and the specifications parse."""
import glob, os, subprocess, sys
from common import *
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = run(["java", "-cp", TLA, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC)
    ok = p.returncode == 0 and "*** Errors" not in p.stdout
    print(("ok   " if ok else "FAIL ") + os.path.basename(f))
    if not ok:
        print(p.stdout[-1500:])
        bad = 1
for c in (["cargo", "--version"], ["rustc", "--version"]):
    p = run(c, envd=env())
    print(p.stdout.strip())
    bad |= p.returncode != 0
sys.exit(bad)
