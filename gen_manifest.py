#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, pathlib, subprocess
from config import CHECKS
here = pathlib.Path(__file__).resolve().parent
props = [json.loads(l) for l in (here / "properties.jsonl").read_text().splitlines() if l.strip()]
from config_na import NA
m = {"version": 1,
     "setup_cmd": "python3 sim/build.py asan && python3 sim/build.py tsan",
     "hooks": {"guard": "none", "enable": "No hooks: every seam is a link-time wrap of a libc function or an interface the library already "
               "has; the checks compile /repo's sources with their own build file.", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        m["checks"].append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
                            "evidence_file": f"evidence/{pid}.json", "technique": c["technique"], "level": c["level"],
                            "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": pid, "reason": NA.get(pid, "check under construction")})
m["notes"] = "See DESIGN.md. Replay a violation with: build/<flavour>/flsim replay <file> --verbose 1"
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
