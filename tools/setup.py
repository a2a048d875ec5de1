#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and that the specifications parse."""
import glob, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
sys.dont_write_bytecode = True
from vlib import core
subprocess.check_call(["go", "version"], env=core.goenv())
for f in sorted(glob.glob(os.path.join(root, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", core.JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=os.path.join(root, "spec"))
    if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout)
        sys.exit("specification does not parse: " + f)
core.Ctx("setup", "quick", 1).build()
print("ready")
