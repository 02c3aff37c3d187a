#!/usr/bin/env python3
"""Builds every harness crate once against /repo's current tree (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, mirror
mirror.main()
want = {(c, "plain") for c in os.listdir(mirror.HARNESS) if os.path.isdir(f"{mirror.HARNESS}/{c}") and c != "common"}
props = [f"C{i:02}" for i in range(100)]
want |= {(check.crate_of(p), v) for p in props if check.CRATE.get(p[:2]) for v in check.variants_of(p)}
want |= {(x, "plain") for xs in check.PROGRAMS.values() for x in xs}
bad = 0
for c, v in sorted(want, key=lambda x: (x[1] != "plain", x)):
    if check.build(c, v) is None:
        bad = 1
sys.exit(bad)
