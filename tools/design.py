#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, table.py, design_notes.py, known_findings.txt, coverage.json and seeded/*/meta.json."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
T = ROOT / "tools"
src = (T / "gen.py").read_text().split("exec((ROOT")[0].replace("__file__", repr(str(T / "gen.py")))
exec(src); exec((T / "table.py").read_text()); exec((T / "design_notes.py").read_text())
covf = T / "coverage.json"
cov = json.loads(covf.read_text()) if covf.exists() else {}
for f in sorted((ROOT / "evidence").glob("C*.json")):
    e = json.loads(f.read_text())
    c = e["coverage"]
    cov.setdefault(e["property"], {})[e["tier"]] = {k: c.get(k) for k in ("states", "transitions", "traces_validated_against_impl", "exhaustive")} | {"wall": e["wall_s"]}
covf.write_text(json.dumps(cov, indent=0, sort_keys=True) + "\n")
bugs = {}
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    bugs.setdefault(m["property"], []).append((d.name, m))
head, tail = (T / "design_head.md").read_text().split("<!-- properties -->")
out = [head]
for p, c in zip(PROPS, CHECKS):
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n"
               f"*Method*: {c['technique']}. *Space*: {p['quantifier']['text']}.\n{NOTES[i]}\n"
               f"*Beyond the tests*: {p['why_tests_cant']} *Residual*: {c['level_note']}\n")
    out.append("*Anchors*: " + "; ".join(f"{m['name']} (`{m['where']}`)" for m in p["anchors"]["mechanism"]) + ".")
    if i in bugs: out.append("*Planted bugs caught*: " + ", ".join(n for n, _ in bugs[i]) + ".")
    out.append("")
out.append("## Coverage and cost\n\nAs last recorded (states / transitions / executions compared with the model or judged by the monitor; wall on 8 cores, without building).\n\n| property | quick | s | thorough | s |\n|---|---|---|---|---|")
def cell(x):
    if not x: return " - | - "
    v = x["traces_validated_against_impl"]
    return f" {x['states']:,} / {x['transitions']:,} / {v:,}{'' if x['exhaustive'] else ' (cut off)'} | {x['wall']:.1f} ".replace(",", " ")
for p in PROPS:
    c = cov.get(p["id"], {})
    out.append(f"| {p['id']} |{cell(c.get('quick'))}|{cell(c.get('thorough'))}|")
out.append("\n## Defects found\n\nAll were shown against the real code by the check named, and repaired by a `fix:` commit.\n")
for l in (ROOT / "known_findings.txt").read_text().splitlines():
    if l.startswith(("fixed:", "known:")): out.append("* " + l.replace("property=", ""))
out.append("\n## Planted bugs\n\nEach compiles, passes the 196 tests, has a demonstration that fails with it and passes without it, and is caught by the check of its property (quick tier).\n\n| bug | check | breaks | needs |\n|---|---|---|---|")
for i in sorted(bugs):
    for n, m in bugs[i]: out.append(f"| {n} | {i} | {m['what_it_breaks']} | {m['needs']} |")
out.append("\nMissed at first: " + ", ".join(FIRST_MISSED) + ". In each case the check's space did not contain what the bug "
           "needs (column \"needs\"), and was extended by it; stats-per-iteration led to the correction of the scheduler described below.")
out.append(tail)
(ROOT / "DESIGN.md").write_text("\n".join(out))
print(len("\n".join(out).splitlines()), "lines")
