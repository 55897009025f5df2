"""python tools/gen_design.py: assemble DESIGN.md"""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("SKADA_REPO", "/repo"), os.path.join(ROOT, "tools")]
from design_notes import INTRO, NOTES, TAIL  # noqa: E402

props = {}
for line in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(line)
    props[p["id"]] = p
seeded = {}
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(d))
    seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
missed = {}
if os.path.exists(f"{ROOT}/tools/seeded_results.json"):
    missed = json.load(open(f"{ROOT}/tools/seeded_results.json"))
known = [json.loads(x) for x in open(f"{ROOT}/known_findings.jsonl") if x.strip()]
out = [INTRO, "\n## Properties\n"]
for pid, p in props.items():
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    b = mod.BOUNDS
    ev = f"{ROOT}/evidence/{pid}.json"
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"* Method: {mod.TECHNIQUE}.")
    q, t = b("quick"), b("thorough")
    out.append(f"* Bounds, quick: {q}.")
    if q != t:
        out.append(f"* Bounds, thorough: {t}.")
    for a in getattr(mod, "ASSUMPTIONS", []):
        out.append(f"* Assumed: {a}.")
    if pid in NOTES:
        out.append(f"* Notes: {NOTES[pid]}")
    fx = [k for k in known if k["property"] == pid]
    nf = sum(k["status"] == "fixed" for k in fx)
    if nf:
        out.append(f"* Defects found and repaired: {nf} (known_findings.jsonl).")
    for k in fx:
        if k["status"] != "fixed":
            out.append(f"* Known finding `{k['key']}`: {k['what']}.")
    out.append("")
out.append("## Seeded bugs and what catches them\n")
out.append("| seeded bug | property | what it breaks | needs | caught by its check |\n|---|---|---|---|---|")
for pid in props:
    for name, m in seeded.get(pid, []):
        out.append(f"| {name} | {pid} | {m['what_it_breaks']} | {m['needs']} | {missed.get(name, 'yes')} |")
out.append(TAIL)
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))
