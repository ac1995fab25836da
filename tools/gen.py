#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/meta.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta  # noqa: E402

V = os.path.dirname(HERE)
NOTE = ("Deductive proof over the LLVM IR extracted from /repo on every run: every obligation of every contract is discharged for all inputs and iterations "
        "(double arithmetic taken as real arithmetic). Assumptions left unchecked are listed in the evidence file of each run. ")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p["observe"], hook_needed=False))) + "\n")
checks, na = [], []
for p in meta.P:
    if p["claimed"]:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt -m dv.check %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt -m dv.check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique="contract-based deductive verification of the compiled source", level="proof",
                           level_note=NOTE + (p["note"] or "")))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no contract discharged yet in this tree"))
json.dump(dict(version=1, setup_cmd="bash /verif/tools/setup.sh", hooks=dict(guard="none", enable="no hooks are compiled into /repo", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="python3-vt runs the verifier; see DESIGN.md. known-findings.txt lists defects found in the unchanged tree."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
