"""Writes MANIFEST.json from properties.jsonl and the law files that exist."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "generated filtered complexes vs independent mod-2 reduction and rank invariant",
 "P02": "differential test of all algorithm/representation/dual combinations vs reference pairing",
}
T.update(json.load(open(os.path.join(V, "tools", "techniques.json"))) if os.path.exists(os.path.join(V, "tools", "techniques.json")) else {})
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if glob.glob(os.path.join(V, "laws", i + "_*")):
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T.get(i, "property-based testing against an independent reference model"),
                           level="exploration",
                           level_note="Generated cases with an explicit oracle, under AddressSanitizer and libstdc++ assertions. Trusts the reference model in /verif/harness and the compiler; says nothing about inputs larger than the stated bounds."))
    else:
        na.append(dict(property=i, reason="No check built (yet); see DESIGN.md."))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
         notes="Checks build their executables from /repo's working tree into /verif/build (content-hash cached). Known findings and fixed defects: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
