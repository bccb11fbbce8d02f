"""Fills the tables of DESIGN.md from tools/DESIGN.in.md, known_findings.json and seeded/*/meta.json."""
import json, os, glob, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import rows
src = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
table = "\n".join("| " + " | ".join(r) + " |" for r in rows.ROWS)
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
fixes = "\n".join(f"* fixed: property={k['property']} {k['commit']} {k['what']}" for k in kf if k["status"] == "fixed") or "none"
opens = "\n".join(f"* {k['property']} (`{k['key']}`): {k['what']}" for k in kf if k["status"] != "fixed") or "none"
lines = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    lines.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', '?')} |")
seeded = "| id | property | what it breaks | caught by (quick, seed 1) |\n|---|---|---|---|\n" + "\n".join(lines) if lines else "none yet"
out = src.replace("@@TABLE@@", table).replace("@@FIXES@@", fixes).replace("@@OPEN@@", opens).replace("@@SEEDED@@", seeded)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
