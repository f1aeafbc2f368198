"""Generate properties.jsonl and MANIFEST.json from one table (kept in step by construction).

Run from /verif:  python3 tools/gen_meta.py
"""
import json
import os

PKG = "surface_potential_analysis/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe, note):
    P.append(
        {
            "p": {
                "id": id_,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": [PKG + f for f in files],
                    "mechanism": [{"name": n, "where": PKG + w} for n, w in mechanism],
                    "observe_at": observe,
                    "hook_needed": None,
                },
            },
            "note": note,
        }
    )


exec(open(os.path.join(HERE, "tools", "properties_table.py")).read())

LEVEL_NOTE = (
    "Generated-input search (Hypothesis, seeded by VERIF_SEED) against an explicit oracle; shows the "
    "absence of violations only on the cases explored. "
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for e in P:
        pid = e["p"]["id"]
        if os.path.exists(os.path.join(HERE, "checks", f"{pid.lower()}.py")):
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"bash run_check.sh {pid} quick",
                    "thorough_cmd": f"bash run_check.sh {pid} thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": "property-based testing (Hypothesis): " + e["note"]["technique"],
                    "level": "exploration",
                    "level_note": LEVEL_NOTE + e["note"]["level_note"],
                }
            )
        else:
            na.append({"property": pid, "reason": e["note"].get("na", "check not built yet")})
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "One harness (harness/), one module per property (checks/cNN.py), run by run_check.sh; "
        "known_findings.json lists recorded defects and repaired ones. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
