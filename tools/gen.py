#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json, worlds.json and MANIFEST.json from tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import spec
root = os.path.dirname(here)
def w(name, s):
    with open(os.path.join(root, name), "w") as f: f.write(s)
lines, checks, man, na = [], {}, [], []
for p in spec.PROPS:
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": l} for n, l in p["mech"]],
                     "observe_at": p.get("observe", []), "hook_needed": None}}
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    lines.append(json.dumps(q))
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]}); continue
    checks[p["id"]] = {"worlds": p["worlds"], "quick_s": p.get("quick_s", 32), "thorough_s": p.get("thorough_s", 900), "quick_runs": p.get("quick_runs", 0)}
    man.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                "technique": p.get("technique", "deterministic simulation with fault injection (seeded schedules and faults, replayable, minimised)"),
                "level": "exploration", "level_note": p["note"]})
w("properties.jsonl", "\n".join(lines) + "\n")
w("checks.json", json.dumps(checks, indent=1) + "\n")
w("worlds.json", json.dumps(spec.WORLDS, indent=1) + "\n")
w("MANIFEST.json", json.dumps({"version": 1, "setup_cmd": "bash check.sh build", "checks": man, "not_applicable": na}, indent=1) + "\n")
try:
    import jsonschema
    sp = "/root/.vp/"
    jsonschema.validate(json.load(open(root + "/MANIFEST.json")), json.load(open(sp + "MANIFEST.schema.json")))
    for l in lines: jsonschema.validate(json.loads(l), json.load(open(sp + "PROPERTIES.schema.json")))
    print("valid", len(lines), "properties", len(man), "checks")
except ImportError:
    print("written (no jsonschema)")
