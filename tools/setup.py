#!/usr/bin/env python3
"""Nothing to build: checks that the interpreters the checks need are there."""
import os, shutil, sys
ok = True
for t in ("python3", "node", "python3-vt"):
    if not shutil.which(t):
        print("missing tool:", t)
        ok = False
if not os.path.isdir("/repo/content/lib/pyswitch"):
    print("missing /repo/content/lib/pyswitch")
    ok = False
sys.exit(0 if ok else 1)
