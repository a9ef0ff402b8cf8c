"""Regenerates MANIFEST.json from properties.jsonl and the property modules present (run by hand)."""
import importlib, json, sys
from pathlib import Path
here = Path(__file__).parent
sys.path.insert(0, str(here))
checks, na = [], []
for line in (here / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    if (here / "mc" / "props" / f"{pid.lower()}.py").exists():
        m = importlib.import_module(f"mc.props.{pid.lower()}")
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} --quick",
            "thorough_cmd": f"./check {pid} --thorough",
            "technique": getattr(m, "TECHNIQUE", "bounded explicit-state model checking of the real code against a reference model"),
            "level": "model_checking",
            "level_note": "Every element of the stated bounded space is executed on the code in /repo; quick: "
                          + m.BOUNDS["quick"] + ". Trusts the reference model in mc/props/" + pid.lower() + ".py"
                          + ("; assumes " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else "") + ".",
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. fix: commits in /repo are listed in known_findings.txt."},
          open(here / "MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
