#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in qv/props."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    f = V + "/qv/props/%s.py" % pid.lower()
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    prop = importlib.import_module("qv.props." + pid.lower()).PROPERTY
    fams = prop["families"]
    n = sum(x.quick for x in fams)
    t = sum(x.thorough for x in fams)
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + pid,
        "technique": prop.get("technique", "property-based testing: seeded structured generators, explicit oracle, shrinking"),
        "level": "exploration",
        "level_note": "%d generated cases (thorough: %d) in %d families: %s. Code under test: the tree's own sources built with ASan, UBSan and library assertions."
                      % (n, t, len(fams), "; ".join("%s (%s)" % (x.name, x.rule) if x.rule else x.name for x in fams)),
    })
m = {"version": 1, "setup_cmd": "python3 qv/build.py", "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as fo:
    json.dump(m, fo, indent=1)
    fo.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
