"""Write properties.jsonl and MANIFEST.json from the sources of truth."""
import ast, json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / "tools"))
from properties_src import P

def meta_of(p):
    f = root / "checks" / f"{p.lower()}.py"
    if not f.exists():
        return None
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            return ast.literal_eval(n.value)
    return None

with open(root / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    m = meta_of(p["id"])
    if m is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = f"/opt/venv/bin/python check.py {p['id']}"
    checks.append({
        "property": p["id"],
        "quick_cmd": c + " --tier quick",
        "thorough_cmd": c + " --tier thorough",
        "technique": m["technique"],
        "level": m.get("level", "exploration"),
        "level_note": m["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Monitors attach to /repo's modules at run time from /verif (public API wrapping, torch function modes); no hook commits in /repo are needed.",
}
(root / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties", len(checks), "checks", len(na), "not claimed")
