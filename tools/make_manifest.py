"""Regenerate MANIFEST.json from the check modules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
NA = {}
checks = []
for p in props:
    path = f"{HERE}/checks/{p['id'].lower()}.py"
    if not os.path.exists(path):
        NA.setdefault(p["id"], "check not built yet")
        continue
    tree = ast.parse(open(path).read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": vals["TECHNIQUE"],
        "level": "exploration",
        "level_note": vals["NOTE"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "Monitors wrap the public API from the harness; /repo carries no hooks.",
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(NA), "not claimed")
