"""Rebuilds the 'fixed' entries of known-findings.json from the fix commits in /repo (run by hand)."""
import json, subprocess, sys
PROP = {  # subject prefix -> property
 "match link closures": "N01", "two-way link removal": "N01", "location closures": "N01", "operations on unknown": "N01",
 "changing a location into": "L01", "clearing locations": "K01", "attributes set on one": "I01", "camps can be configured": "K05",
 "deactivated agents": "K05", "pruning keeps": "R03", "ethnicity matching": "R02", "population weighting": "R02", "stay_close": "R02",
 "awareness level 0 selects": "R01", "agents without any": "R01", "agent logs with region": "O01", "agent logging no longer": "O01",
 "conflict dates": "L02", "forced redirection of type 1": "I01", "missing conflict data": "L02", "comments and empty lines": "I01",
 "spawn_agents picks": "S02", "days without new": "S01", "dated conflict zones": "L02", "an internal camp": "L01", "add_conflict_zone starts": "L01",
}
PROP.update(json.load(open("/verif/tools/fixed_more.json")))
f = "/verif/known-findings.json"
d = json.load(open(f))
d["findings"] = [x for x in d["findings"] if x["status"] == "known"]
d["fixed"] = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        t = s[5:]
        p = [v for k, v in PROP.items() if t.startswith(k)]
        if not p:
            sys.exit("no property for: " + t)
        d["fixed"].append("fixed: property=%s %s %s" % (p[0], h, t))
json.dump(d, open(f, "w"), indent=1)
