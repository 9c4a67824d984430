#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl, checks/*.cpp and the notes below.
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
TECH = {
 "sched": "stateful property-based testing with generated thread schedules (deterministic scheduler)",
 "asan": "property-based testing with choice-sequence generation and shrinking, reference-model oracle",
 "rt": "stateful property-based testing over real sockets, model oracle",
}
import importlib.util
spec = importlib.util.spec_from_file_location("n", f"{V}/tools/notes.py"); n = importlib.util.module_from_spec(spec); spec.loader.exec_module(n)
checks, na = [], []
for i in ids:
    src = f"{V}/checks/{i}.cpp"
    if not os.path.exists(src):
        na.append({"property": i, "reason": n.NA.get(i, "check not built yet")}); continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n.TECH.get(i, "property-based testing (choice-sequence generation, shrinking) against a reference oracle"),
        "level": n.LEVEL.get(i, "exploration"), "level_note": n.NOTE.get(i, "Generated-input search; no violation among the cases counted in the evidence file. Trusts the harness oracle and the stand-ins in lib/standin.")})
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('build/o', exist_ok=True)\"", "checks": checks, "not_applicable": na,
     "notes": "Every check is 'python3 run.py <id>': it rebuilds what it needs from /repo's working tree, runs seeded generators in forked unprivileged workers, confirms and shrinks failures, and writes evidence/<id>.json. Replay: python3 run.py <id> --replay <file>."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
