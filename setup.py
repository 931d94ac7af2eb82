#!/usr/bin/env python3
"""Builds the symbolic engine and warms the dependency builds of the harness and replay crates."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.TARGET, exist_ok=True)
h = check.src_hash()
a, sa = check.build_target("bc", "C01", h)
b, sb = check.build_target("nat", "C01", h)
check.build_engine()
c, sc = check.build_target("bc", "C20", h)
for p, s in ((a, sa), (b, sb), (c, sc)):
    o, _ = p.communicate()
    if p.returncode:
        sys.stdout.write(o.decode(errors="replace")[-4000:])
        sys.exit(1)
    open(s, "w").write(h)
print("setup done")
