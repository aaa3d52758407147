"""Writes MANIFEST.json from harness/props.py and properties.jsonl (run by hand)."""
import json, sys
sys.path.insert(0, "/verif/harness")
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOT = props.NOT_APPLICABLE
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "TLA+ specification checked with TLC; traces recorded from the code validated against it" +
                                ("; closed TLC model explored exhaustively, its behaviours replayed in the code" if any(f.startswith("mc_") for f in p["fams"]) else ""),
                   "level": "model_checking", "level_note": p.get("note", props.NOTE)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": i, "reason": NOT.get(i, "no check yet: work in progress")} for i in ids if i not in props.PROPS],
           "notes": "See DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
