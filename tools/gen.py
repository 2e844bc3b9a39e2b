#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.dont_write_bytecode = True
from meta import META, NOT_APPLICABLE
from props import PROPS

TECH = "symbolic execution of the LLVM IR of the real code, decided by z3 (bounded); every path replayed natively"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid, m in sorted(META.items()):
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        assert pid in PROPS or pid in NOT_APPLICABLE, pid
        f.write(json.dumps({
            "id": pid, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["text"]},
            "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": m["mechanism"], "observe_at": m["observe"], "hook_needed": m.get("hook")},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
}
for pid in sorted(PROPS):
    p = PROPS[pid]
    b = "; ".join(r["bounds"] for r in p["runs"] if r["bounds"])
    man["checks"].append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "technique": TECH,
        "level": "model_checking",
        "level_note": "Every value within the bounds is covered: %s. Trusts rustc's lowering to LLVM IR, the engine's LLVM semantics and z3; each explored path is also run on a native build and has to agree. Outside the bounds nothing is claimed. %s" % (b, META[pid].get("note", "")),
        "evidence_file": "evidence/%s.json" % pid,
    })
    man["checks"][-1]["level_note"] = man["checks"][-1]["level_note"].strip()
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
