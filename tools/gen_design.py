#!/usr/bin/env python3
"""DESIGN.md from design.md.in, the table of checks, design_notes.py and the planted bugs."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, here)
from checks import CHECKS
from design_notes import NOTES, MISSED, CAUGHT_BY, UNCAUGHT
props = {p["id"]: p for p in map(json.loads, open(os.path.join(root, "properties.jsonl")))}
sec = []
for i, p in props.items():
    c = CHECKS[i]
    n = NOTES[i]
    src = sorted({j["src"] or "generated by tools/" + j["gen"][0] for j in c["jobs"]})
    sec.append("### %s %s\n\n*Machinery:* %s. *Decided by:* %s.\n\n*Enumerated:* %s.\n\n*Oracle:* %s\n\n*Beyond the tests:* %s\n%s" % (
        i, p["title"], ", ".join("`%s`" % s if "generated" not in s else s for s in src), c["technique"], c["bounds"], n[0], n[1],
        "\n*Assumptions:* " + "; ".join(c["assumptions"][3:]) + ".\n" if c["assumptions"][3:] else ""))
fixed, known = [], []
for l in open(os.path.join(root, "known_findings.txt")):
    if l.startswith("fixed: "): fixed.append("* " + l[len("fixed: property="):].strip())
    if l.startswith("known: "): known.append("* " + l[len("known: property="):].strip())
rows = ["| id | property | breaks | manifests only with | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    s = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"], d["needs"], UNCAUGHT.get(s) or CAUGHT_BY.get(s) or d["property"]))
out = open(os.path.join(here, "design.md.in")).read()
for k, v in (("sections", "\n".join(sec)), ("fixed", "\n".join(fixed)), ("known", "\n".join(known)), ("seeds", "\n".join(rows)), ("missed", "\n".join("* " + m for m in MISSED))):
    out = out.replace("{%s}" % k, v)
open(os.path.join(root, "DESIGN.md"), "w").write(out)
