"""Writes MANIFEST.json from the checks that exist in mc/checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {}
checks, na = [], []
import re
for p in props:
    f = f"{V}/mc/checks/{p['id'].lower()}.py"
    if os.path.exists(f):
        src = open(f).read()
        def const(name, default=None):
            m = re.search(rf'^{name} = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
            return "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else default
        checks.append({
            "property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./mc/run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./mc/run.sh {p['id']}",
            "technique": const("TECHNIQUE"), "level": const("LEVEL", "model_checking"),
            "level_note": const("NOTE")})
        assert checks[-1]["technique"] and checks[-1]["level_note"], p["id"]
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check under construction; nothing is claimed yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks import the code from /repo's working tree (pure Python, nothing to build); no hooks are needed in /repo. Known findings: known_findings.jsonl."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
