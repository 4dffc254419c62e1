#!/usr/bin/env python3
"""Development helper: vpall.py <harness file> [-n] [-v] [k=v ...] [function patterns]: run several harnesses, compact report."""
import re, sys, time
from vplib import *
h = sys.argv[1]; args = sys.argv[2:]; opts = {"maxtime": "100", "timeout": "10"}; opts.update(dict(a.split("=", 1) for a in args if "=" in a))
pats = [a for a in args if "=" not in a and not a.startswith("-")]
fns = re.findall(r"^\s*HARNESS\((\w+)\)", read(os.path.join(VERIF, "harness", h + ".cpp")).decode(), re.M)
fns = [f for f in fns if not pats or any(re.search(p, f) for p in pats)]
t = time.time()
try: eng, bc = harness_bc(h, fns)
except BuildError as e: print("\n".join(l[:220] for l in str(e).splitlines() if "error" in l or "note" in l)[:2500]); sys.exit(2)
print("build %.1fs" % (time.time() - t))
def go(f): return f, run_harness(eng, bc, f, "/tmp/vprun-" + f, opts)
with ThreadPoolExecutor(8) as ex:
    for f, r in ex.map(go, fns):
        labs = r["labels"]; nob = sum(sum(v) for k, v in labs.items() if not k.startswith(("reach:", "expect:")))
        bad = {k: v for k, v in labs.items() if not k.startswith(("reach:", "expect:")) and (v[2] or v[3])}
        inc = r.get("unsupported") or r.get("truncated") or r.get("aborted") or r.get("error")
        print("%-4s %-34s paths=%s reach=%s obl=%d z3=%d q=%s unk=%s div=%s t=%.1f" % ("ok" if not bad and not inc and r.get("reach") else "BAD", f, r.get("paths"), r.get("reach"), nob, sum(v[1] for k, v in labs.items() if not k.startswith("reach")), r.get("queries"), r.get("unknown"), r.get("div_assumed"), r.get("wall", 0)))
        for k, v in bad.items(): print("       %-80s ok=%d failed=%d unknown=%d" % (k, v[0] + v[1], v[2], v[3]))
        if inc or not r.get("reach"):
            for m in r["msgs"][:6]: print("       msg", m[:300])
        if "-v" in args:
            for k, v in labs.items(): print("       ", k, v)
        if "-n" in args:
            try: prog = native_program(h, f)
            except BuildError as e: print(str(e)[-800:]); continue
            c = sorted(x for x in os.listdir("/tmp/vprun-" + f) if x.startswith("cand_"))
            seen = {}
            for x in c:
                lab = read("/tmp/vprun-%s/%s" % (f, x)).decode().split("\n")[0][8:]
                if seen.get(lab, 0) >= 2: continue
                seen[lab] = seen.get(lab, 0) + 1
                rc, log = replay(prog, "/tmp/vprun-%s/%s" % (f, x)); print("       cand %s rc=%d [%s] %s" % (x, rc, lab, log.strip().replace("\n", " ; ")[:300]))
            w = "/tmp/vprun-%s/witness.txt" % f
            if os.path.exists(w): rc, log = replay(prog, w); print("       witness rc=%d %s" % (rc, log.strip().replace("\n", " ; ")[:200]))
