#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid in sorted(set(PROPS) | set(NOT_APPLICABLE)):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "VP_NATIVE", "enable": "no source hooks in /repo: the checks compile /repo's sources unchanged (VP_NATIVE only selects the native build of files under /verif)", "source_commits": []},
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                 "technique": "symbolic execution of the library's LLVM IR with exact-real semantics, SMT (Z3) verdict per obligation, native replay of counterexamples",
                 "level": p.get("level", "model_checking"), "level_note": "Bounded: %s. Bounds: %s." % (p["note"], p["bounds"])} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
