"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of the resolved program (value-graph summaries compared with an independent specification)"
PROPS = []
NA = []


def prop(id, title, statement, over, text, tests, files, mech, technique=ABS, note="", observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=tests,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               **({"observe_at": list(observe)} if observe else {})}))
    PROPS[-1]["_t"], PROPS[-1]["_n"] = technique, note


exec(open(os.path.join(ROOT, "tools", "props.in.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "bash extractor/build.sh",
       "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                   "technique": p["_t"], "level": "other",
                   "level_note": p["_n"] or "each obligation is discharged when normal forms agree (holds for every size and value in exact arithmetic) or refuted by a separating assignment; undecided obligations are listed in the evidence and never alarm"}
                  for p in PROPS if p["id"] not in [n[0] for n in NA]],
       "not_applicable": [{"property": a, "reason": r} for a, r in NA]}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in PROPS:
    jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, sch)
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
