#!/usr/bin/env python3
"""Checks that the tools the checks need are there (nothing has to be built in advance)."""
import shutil, subprocess, sys
miss = [t for t in ("z3-new", "z3", "bash") if not shutil.which(t)]
r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && go version"], capture_output=True, text=True)
print(r.stdout.strip())
if miss or r.returncode:
    print("missing:", miss, r.stderr)
    sys.exit(1)
