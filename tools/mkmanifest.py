"""Write MANIFEST.json from the table below and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
T = json.load(open(ROOT + "/tools/checks.json"))
NA = dict(T["not_applicable"])
checks = []
for i in ids:
    if i in T["checks"]:
        c = T["checks"][i]
        cmd = f"/opt/venv/bin/python harness/check.py {i}"
        checks.append(dict(property=i, quick_cmd=cmd,
                           thorough_cmd="env VERIF_TIER=thorough " + cmd,
                           evidence_file=f"evidence/{i}.json",
                           technique=c["technique"], level="model_checking",
                           level_note=c["note"]))
    elif i not in NA:
        NA[i] = "check not built yet"
m = dict(version=1, setup_cmd="/opt/venv/bin/python harness/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="TLA+ specifications in spec/, checked and used as trace oracles with "
               "TLC; conformance drivers in harness/. No hooks in /repo.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")
