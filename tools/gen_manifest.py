#!/usr/bin/env python3
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(root + "/harness/sim/src/checks.rs").read()
claimed = re.findall(r'id: "(C\d\d)"', src)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {}
NOTE = ("random and directed histories of the real program under online monitors; holds on everything explored, "
        "not proved; native execution on a mini runtime instead of the BPF VM")
checks = [{
    "property": p["id"],
    "quick_cmd": f"./check.sh {p['id']} --tier quick",
    "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": "runtime monitoring: online trace oracle over executions of the real program",
    "level": "exploration",
    "level_note": NOTE,
} for p in props if p["id"] in claimed]
na = [{"property": p["id"], "reason": NA.get(p["id"], "the monitor for it is not built yet")}
      for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "./check.sh --build-only", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
