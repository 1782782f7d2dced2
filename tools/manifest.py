"""Writes MANIFEST.json from properties.jsonl and the configured checks."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vsim.props import CONFIG  # noqa: E402

PURE = (
    "a function of the document or object and the call's options alone: no schedule, fault, "
    "interruption, process history or other party can change it, so a simulator has nothing to decide"
)
NA = {
    "C15": PURE + " (key encoding); the keyed scenarios of C01-C05, C08 and C09 exercise it as workload only",
    "C16": PURE + " (shape of one document)",
    "C17": PURE + " (one document, one call)",
    "C18": PURE + " (fixed old documents)",
    "C19": PURE + " (depth of one document)",
}
NOTE = (
    "Seeded search over simulated executions of the real library; a violation comes with a minimised "
    "replay file that was repeated in a fresh process before it is reported. Assumes the seam list in "
    "DESIGN.md owns the nondeterminism; says nothing beyond the sampled scenarios."
)


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in CONFIG:
            c = CONFIG[pid]
            checks.append({
                "property": pid,
                "quick_cmd": f"bash check.sh {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "deterministic simulation: " + c["technique"],
                "level": c.get("level", "exploration"),
                "level_note": NOTE,
            })  # fmt: skip
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
    m = {
        "version": 1,
        "setup_cmd": "bash check.sh --selftest",
        "hooks": {
            "guard": "none",
            "enable": "no hooks were added to /repo: the seams are code monitoring events, user hooks, backend modules, import finders and the id function seen by the library",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": na,
        "notes": "Known and fixed findings: known_findings.jsonl. Design and results: DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
