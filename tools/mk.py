"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, VERIF  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

checks, na = [], []
for p in P:
    ok = p["check"] and os.path.exists(os.path.join(VERIF, "harness", "checks", p["check"] + ".py"))
    if ok:
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["check"],
                       "thorough_cmd": "bin/check %s thorough" % p["check"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; conformance harness in harness/. No hooks in /repo: "
              "the library is sequential and its public interface exposes the abstract state."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
