#!/usr/bin/env python3
"""Warms the build cache: compiles every harness package and the binaries the checks use. Optional;
each check builds what it needs by itself."""
import json, os, subprocess, sys, tempfile, shutil
sys.argv = [sys.argv[0]]
import check
conf = check.CHECKS
seen = set()
for i, c in sorted(conf.items()):
    k = (c["pkg"], bool(c.get("race")), bool(c.get("race_parts")), tuple(sorted(c.get("bins", {}).items())))
    if k in seen:
        continue
    seen.add(k)
    w = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        check.build(c, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print("built", len(seen), "harness variants")
