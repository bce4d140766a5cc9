#!/usr/bin/env python3
"""Checks that what the framework needs is there, and parses every module."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
ok = True
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", *mods], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT, text=True)
if p.returncode != 0:
    print(p.stdout[-4000:]); ok = False
print(f"{len(mods)} modules parsed" if ok else "a module does not parse")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
