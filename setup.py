#!/usr/bin/env python3
"""Builds the engine, the Eigen overlay and the library bitcode (a cache: every check rebuilds what is missing or stale)."""
from vplib import *
from props import PROPS
build_engine(); ov = build_overlay()
with ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(lambda s: bitcode(os.path.join(REPO, s), ov), repo_sources()))
for h in sorted(set(r["file"] for p in PROPS.values() for r in p["runs"])):
    harness_bc(h, sorted(set(r["fn"] for p in PROPS.values() for r in p["runs"] if r["file"] == h)))
print("setup done")
