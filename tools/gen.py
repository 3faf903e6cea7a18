#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing it)."""
import json, pathlib, subprocess
ROOT = pathlib.Path(__file__).resolve().parent.parent
DE = "dynamic_expressions/src/"
SR = "symbolic_regression/src/"
PROPS, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, hook=None, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if na: NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"./check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
                       "evidence_file": f"evidence/{id}.json", "technique": tech, "level": "model_checking", "level_note": note})

exec((ROOT / "tools" / "table.py").read_text())

with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
def hook_commits():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    return [l.split()[0] for l in out.splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(sr_verif)", "enable": "RUSTFLAGS='--cfg sr_verif' cargo build, from the harness crates in /verif (env.sh)", "source_commits": hook_commits()},
     "checks": CHECKS, "not_applicable": NA,
     "notes": "Each check builds its harness crate against /repo's working tree and enumerates a bounded space exhaustively; see DESIGN.md."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(PROPS), "properties;", len(CHECKS), "claimed")
