"""writes MANIFEST.json from the table of levels"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
exec(open(os.path.join(H, "tools", "levels.py")).read())
checks = []
for p in props:
    i = p["id"]
    pr = i in PROOF
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": PROVER if pr else PARTIAL_TECH if i in PARTIAL else BOUNDED_TECH,
        "level": "proof" if pr else "exploration",
        "level_note": PROOF[i] + TRUST if pr else PARTIAL[i] + TRUST if i in PARTIAL else BOUNDED.get(i, BOUNDED_NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: /repo carries only fix: commits (KNOWN_FINDINGS.txt). See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
