#!/usr/bin/env python3
"""Development helper: vprun.py <harness file> <function> [-n] [k=v ...]   (-n: also replay natively)"""
import sys, time, traceback
from vplib import *
h, fn = sys.argv[1:3]; opts = dict(a.split("=", 1) for a in sys.argv[3:] if "=" in a)
verbose = "-v" in sys.argv
t = time.time()
try: eng, bc = harness_bc(h, [fn])
except BuildError as e: print(str(e)[-2500:]); sys.exit(2)
print("build %.1fs" % (time.time() - t))
opts.setdefault("maxtime", "120"); opts.setdefault("timeout", "10")
out = "/tmp/vprun-%s" % fn
if verbose:
    os.makedirs(out, exist_ok=True); os.execv(eng, [eng, "run", bc, fn, out, "-v"] + ["%s=%s" % kv for kv in opts.items()])
r = run_harness(eng, bc, fn, out, opts)
for k in ("log",):
    if r.get(k): print(r[k])
labs = r.pop("labels"); fns = r.pop("functions"); r.pop("log", None); msgs = r.pop("msgs")
print(r)
for k, v in labs.items(): print("  %-70s nf=%d z3=%d failed=%d unknown=%d" % ((k,) + tuple(v)))
for m in msgs: print("  msg", m)
print("  functions:", len(fns))
if "-n" in sys.argv:
    t = time.time(); prog = native_program(h, fn); print("native build %.1fs" % (time.time() - t))
    c = sorted(f for f in os.listdir(out) if f.startswith("cand_"))
    for f in c[:12]:
        rc, log = replay(prog, os.path.join(out, f)); print(f, rc, read(os.path.join(out, f)).decode().split("\n")[0], "|", log.strip().replace("\n", " ; ")[:600])
    if not c:
        open(out + "/empty.txt", "w").write(""); print(replay(prog, out + "/empty.txt"))
