#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks' constants and the not-applicable table."""
import ast, glob, json, os

here = os.path.dirname(os.path.abspath(__file__))
checks = []
for f in sorted(glob.glob(os.path.join(here, "checks", "c[0-9][0-9].py"))):
    m = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                m[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    id = m["PROPERTY"]
    checks.append({
        "property": id,
        "quick_cmd": f"./check {id} --tier quick",
        "thorough_cmd": f"./check {id} --tier thorough",
        "evidence_file": f"evidence/{id}.json",
        "technique": m.get("TECHNIQUE", "deterministic simulation: seeded schedule and fault search over the real code"),
        "level": m.get("LEVEL", "exploration"),
        "level_note": m.get("NOTE", "Sampled, not exhaustive: every simulated run is decided by one seed, all listed seeds are replayed exactly; a clean batch is evidence, not proof."),
    })
na = []
p = os.path.join(here, "not_applicable.json")
if os.path.exists(p):
    na = json.load(open(p))
hooks = {"guard": "none (no hooks were necessary: all seams are library interfaces replaced before import)", "enable": "not needed", "source_commits": []}
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. known_findings.jsonl lists fixed and open findings."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
