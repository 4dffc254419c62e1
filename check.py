#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]
Symbolically executes the harnesses of one property over /repo's current sources, lets Z3 decide every
obligation, replays each counterexample natively against the real library, writes evidence/<id>.json."""
import json, os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
from vplib import *
from props import PROPS, ENGINE_ASSUMPTIONS

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = PROPS[pid]
    budget = 780 if tier == "quick" else 6 * 3600
    runs = [r for r in prop["runs"] if tier == "thorough" or not r.get("thorough_only")]
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    byfile = {}
    for r in runs:
        byfile.setdefault(r["file"], set()).add(r["fn"])
    progs = {}
    for h, fns in byfile.items():
        progs[h] = harness_bc(h, sorted(fns))
    tbuild = time.time() - t0
    results = []
    def one(i, r):
        o = {"timeout": 20, "maxtime": 300, "maxpaths": 20000}
        o.update(r.get("opts", {}))
        if tier == "thorough":
            o["timeout"] = float(o["timeout"]) * 6; o["maxtime"] = float(o["maxtime"]) * 8; o.update(r.get("thorough", {}))
        else:
            o["maxtime"] = max(5, min(float(o["maxtime"]), budget - (time.time() - t0) - 150))
        eng, bc = progs[r["file"]]
        d = os.path.join(work, "%03d_%s" % (i, r["fn"]))
        return i, r, d, run_harness(eng, bc, r["fn"], d, o)
    order = sorted(range(len(runs)), key=lambda i: -runs[i].get("weight", 1))
    with ThreadPoolExecutor(JOBS) as ex:
        for f in as_completed([ex.submit(one, i, runs[i]) for i in order]):
            results.append(f.result())
    results.sort(key=lambda x: x[0])
    tsym = time.time() - t0 - tbuild
    violations, knownhits, undecided, unconfirmed = [], [], [], 0
    replays, validated = 0, 0
    native = {}
    def prog(r):
        k = (r["file"], r["fn"])
        if k not in native:
            native[k] = native_program(*k)
        return native[k]
    for i, r, d, res in results:
        tag = "%s/%s" % (r["file"], r["fn"]) + ("" if not r.get("opts") else " " + " ".join("%s=%s" % kv for kv in sorted(r["opts"].items()) if kv[0] not in ("timeout", "maxtime", "maxpaths")))
        cands = sorted((f for f in os.listdir(d) if f.startswith("cand_")), key=lambda f: int(f[5:-4])) if os.path.isdir(d) else []
        seen = {}
        labs0 = res.get("labels", {})
        if not (res.get("error") or res.get("unsupported") or res.get("truncated") or res.get("aborted")):
            for k in labs0:  # existence claims: no feasible path of the complete exploration reaches the label
                if k.startswith("expect:") and "reach:" + k[7:] not in labs0:
                    c = "cand_%d.txt" % (1000 + len(cands)); cands.append(c)
                    with open(os.path.join(d, c), "w") as f:
                        f.write("# label %s\nexpect %s\n" % (k, k[7:]))
        for c in cands:
            if time.time() - t0 > budget:
                break
            lab = read(os.path.join(d, c)).decode(errors="replace").split("\n")[0][8:]
            if any(v[0] == tag for v in violations) or seen.get(lab, 0) >= 6:
                continue
            seen[lab] = seen.get(lab, 0) + 1
            try:
                rc, log = replay(prog(r), os.path.join(d, c))
            except BuildError as e:
                undecided.append("%s: native replay does not build: %s" % (tag, str(e)[-300:])); break
            replays += 1
            if rc == 1:
                failed = [l.split("CHECK FAILED: ", 1)[1] for l in log.splitlines() if "CHECK FAILED: " in l]
                kf = [k for k in known if k["property"] == pid and k["fn"] == r["fn"] and failed and all(any(f.startswith(x) for x in k["labels"]) for f in failed)]
                if kf:
                    knownhits.append((kf[0]["what"])); continue
                rp = os.path.join(VERIF, "evidence", "replay_%s_%d.txt" % (pid, len(violations)))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    f.write("# property %s, harness %s %s\n# replay: python3 replay.py %s %s %s\n# %s\n" % (pid, r["file"], r["fn"], r["file"], r["fn"], rp, "; ".join(failed)[:800]))
                    f.write(read(os.path.join(d, c)).decode(errors="replace"))
                violations.append((tag, failed, rp))
            elif rc == 0:
                unconfirmed += 1
        labs = res.get("labels", {})
        bad = {k: v for k, v in labs.items() if not k.startswith(("reach:", "expect:")) and (v[2] or v[3])}
        if bad and not any(v[0] == tag for v in violations):
            undecided.append("%s: %s" % (tag, "; ".join("%s (failed %d, unknown %d)" % (k, v[2], v[3]) for k, v in bad.items())[:400]))
        if res.get("error") or res.get("unsupported") or res.get("truncated") or res.get("aborted"):
            undecided.append("%s: incomplete: %s" % (tag, " | ".join(res.get("msgs", []))[:400]))
        elif not res.get("reach"):
            undecided.append("%s: no feasible path reaches the end of the harness" % tag)
    # encoding validation: replay each harness natively at a feasible input
    if not violations:
        for i, r, d, res in results:
            w = os.path.join(d, "witness.txt")
            if os.path.exists(w) and time.time() - t0 < budget - 60 and (tier == "thorough" or validated < prop.get("validate", 3)):
                try:
                    rc, log = replay(prog(r), w)
                except BuildError:
                    break
                replays += 1; validated += rc == 0
    tot = lambda k: sum((x[3].get(k) or 0) for x in results)
    samples = []
    for i, r, d, res in results[:40]:
        samples.append({"harness": r["fn"], "options": {k: v for k, v in r.get("opts", {}).items()}, "paths": res.get("paths"), "queries": res.get("queries"), "solver_s": res.get("solver_s"), "wall_s": res.get("wall"),
                        "obligations": {k: {"by_normal_form_confirmed_by_z3": v[0], "by_z3": v[1], "failed": v[2], "unknown": v[3]} for k, v in res.get("labels", {}).items() if not k.startswith(("reach:", "expect:"))}})
    fns = sorted(set(f for x in results for f in x[3].get("functions", [])))
    nob = sum(sum(v) for x in results for k, v in x[3].get("labels", {}).items() if not k.startswith(("reach:", "expect:")))
    ndis = sum(v[0] + v[1] for x in results for k, v in x[3].get("labels", {}).items() if not k.startswith(("reach:", "expect:")))
    cov = {"states": int(tot("paths")), "transitions": int(tot("decides") + tot("forks")), "traces_validated_against_impl": int(validated), "samples": samples,
           "obligations": nob, "discharged": ndis, "queries": int(tot("queries")), "queries_unsat": int(tot("unsat")), "queries_sat": int(tot("sat")), "queries_unknown": int(tot("unknown")), "interval_verdicts": int(tot("interval")),
           "solver_s": round(tot("solver_s"), 2), "feasible_end_states": int(tot("reach")), "divisors_assumed_nonzero": int(tot("div_assumed")), "functions_encoded": fns, "bounds": prop["bounds"],
           "undecided": undecided, "candidates_not_reproduced": unconfirmed, "native_replays": replays, "build_s": round(tbuild, 1), "symbolic_s": round(tsym, 1),
           "rule": "states = completed symbolic paths; transitions = solver-decided branches and forks; an obligation is one asserted (in)equality on one path, decided for every value of the symbolic inputs; interval_verdicts counts comparisons decided by branch-and-bound over the input box instead of Z3"}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"), "coverage": cov, "assumptions": ENGINE_ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    print("%s %s: %d harness runs, %d paths, %d obligations, %d discharged, %d queries, solver %.1fs, wall %.1fs" % (pid, tier, len(runs), cov["states"], nob, ndis, cov["queries"], cov["solver_s"], time.time() - t0))
    for u in undecided:
        print("UNDECIDED:", u)
    for tag, failed, rp in violations:
        print("  %s: %s" % (tag, "; ".join(failed)[:500]))
    for tag, failed, rp in violations[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if os.environ.get("VP_KEEP") != "1":
        shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0

if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as e:
        print("UNDECIDED: the checked sources do not build for symbolic execution:\n%s" % e); rc = 2
    sys.stdout.flush(); os._exit(rc)
