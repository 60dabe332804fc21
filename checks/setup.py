#!/usr/bin/env python3
"""Nothing to install: parses every specification so that a broken one shows up at once."""
import glob, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(root, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", jars, "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(root, "spec"))
    if r.returncode != 0 or "*** Errors" in r.stdout:
        print(f, r.stdout[-2000:])
        bad = 1
sys.exit(bad)
