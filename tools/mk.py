#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NA
# checks that take a few seconds draw three times the cases
LIGHT = "C01 C02 C03 C05 C06 C08 C10 C11 C12 C17 C18 C19 C21 C22 C23 C27 C33".split()
ids = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["title"]
        ids.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "harness/checks", i.lower(), "main.go")):
        checks.append({"property": i, "quick_cmd": "./check %s quick%s" % (i, " --scale 3" if i in LIGHT else ""), "thorough_cmd": "./check %s thorough" % i,
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks use exported API only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check is a Go program under harness/checks/<id>, driven by harness/vk over pgregory.net/rapid; ./check builds it against /repo's working tree and runs it."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
