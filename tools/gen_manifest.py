#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "python3 tools/vrun.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors observe public interfaces, files and sanitizer reports",
               "source_commits": []},
     "checks": [], "not_applicable": [], "notes": getattr(checks, "NOTES", "")}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 tools/vrun.py %s" % p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/vrun.py %s" % p,
                            "technique": c.get("technique", "reference-model monitor on the real code built with ASan+UBSan"),
                            "level": "exploration", "level_note": c["rule"]})
    else:
        m["not_applicable"].append({"property": p, "reason": getattr(checks, "NA", {}).get(p, "no check built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
