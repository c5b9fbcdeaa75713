"""Write MANIFEST.json from the check modules (run with /opt/venv/bin/python)"""
import ast
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (VERIF / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, missing = [], []
for p in props:
    f = VERIF / "checks" / f"{p['id']}.py"
    if not f.exists():
        missing.append({"property": p["id"], "reason": "check not built yet"})
        continue
    mod = ast.parse(f.read_text())
    val = {}
    for node in mod.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                val[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "technique": val["TECHNIQUE"],
        "level": val.get("LEVEL", "exploration"),
        "level_note": val["LEVEL_NOTE"],
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python lib/build.py plain asan",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Every check builds /repo's current working tree out of tree (cached in /verif/.cache by content) and runs it; no hooks in /repo are needed.",
}
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
