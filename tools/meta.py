#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # (property record, check record or None, not-applicable reason or None)

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, note=None, na=None,
         technique="deterministic simulation: seeded search over fault sequences, replayable", level="exploration"):
    rec = {"id": id, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                       "hook_needed": hook}}
    if state: rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: rec["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    chk = None
    if na is None:
        chk = {"property": id, "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
               "technique": technique, "level": level, "level_note": note}
    P.append((rec, chk, na))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r, _, _ in P:
        f.write(json.dumps(r) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "cargo feature `sim_hooks` of the doodle crate (off by default)",
                 "enable": "the harness crate /verif/sim depends on doodle with features = [\"sim_hooks\"]",
                 "source_commits": hooks},
       "checks": [c for _, c, _ in P if c],
       "not_applicable": [{"property": r["id"], "reason": n} for r, _, n in P if n],
       "notes": "Every check builds the harness and the tree under test itself (see check.sh); `./check.sh ID replay FILE` re-executes a replay file. SIM_RUNS, SIM_WORKERS, SIM_WALL and VERIF_SEED override the defaults."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
