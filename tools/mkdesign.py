#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_tail.md, notes.py, properties.jsonl, seeded/*/meta.json and the evidence of the last quick run."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import notes, registry
rd = lambda f: open(os.path.join(ROOT, f)).read()
out = [rd("tools/design_head.md"), "\n## The properties, one by one\n\nCounts are those of the quick tier; \"inner\" counts executions inside one indexed case (steps of a walk, schedules, histories).\n"]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    ev = json.load(open(os.path.join(ROOT, "evidence", i + ".json")))
    assert ev["tier"] == "quick" and not ev.get("violations"), i
    c = ev["coverage"]
    out.append(f"\n### {i} {p['title']}\n\n*Specified:* {p['statement']}\n\n*Method:* {registry.CHECKS[i]['technique']}. {notes.TEXT[i]}\n\n*Why not by tests:* {p['why_tests_cant']}\n\n")
    out.append(f"*Explored (quick):* {c['states']:,} states, {c['transitions']:,} transitions (calls), {c['comparisons']:,} comparisons.\n\n")
    groups = {}
    for f in c["families"]:
        name, _, inst = f["name"].partition(":")
        groups.setdefault((name, f["what"]), []).append(f)
    for (name, what), fs in groups.items():
        cases, inner = sum(f["cases"] for f in fs), sum(f["inner"] for f in fs)
        out.append(f"* `{name}`" + (f" ({len(fs)} instances)" if len(fs) > 1 else "") + f": {what} [{cases:,} cases" + (f", {inner:,} inner" if inner else "") + "]\n")
out.append("\n" + rd("tools/design_tail.md"))
out.append("\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    out.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {caught.get(b, '?')} |\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
