#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/meta.py and properties.jsonl."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from sim.meta import META, NA  # noqa: E402
props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
assert set(NA) & set(META) == set()
checks = [{
    "property": p,
    "quick_cmd": f"bin/check {p} --tier quick",
    "thorough_cmd": f"bin/check {p} --tier thorough",
    "technique": "deterministic simulation with fault injection: " + META[p]["technique"],
    "level": "exploration",
    "level_note": META[p]["note"],
} for p in props if p in META]
na = [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in META]
doc = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {
        "guard": "VERIF_SIM_SEAM_H",
        "enable": "no hook is committed in /repo: sim/build.py compiles a copy of /repo's working tree with -include sim/seam.h (which defines VERIF_SIM_SEAM_H) and -Wl,--wrap=...; the shipped build never sees either",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
}
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
