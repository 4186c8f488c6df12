"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTES = json.loads((root / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / "vk" / "checks" / f"{i.lower()}.py").exists():
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd=f"bash run.sh {i} quick",
            thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "runtime monitoring: randomized workloads on the real code with oracle monitors"),
            level="exploration",
            level_note=n.get("note", "Held on the executions observed (counts in the evidence file); assumes the numpy reference models and the stated tolerances."),
        ))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Runtime monitors over randomized workloads of the real library; see DESIGN.md. No hooks in /repo are needed: all observations are public return values.")
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
