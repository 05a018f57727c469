#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, technique=None, level=None, note=None, na=None, observe=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, observe=observe))


AI = "abstract interpretation of rustc MIR (value numbering, bit provenance, intervals)"
TRUST = "Trusts rustc's MIR, the transfer functions in /verif/driver and the format descriptions in its spec files."

exec(open(os.path.join(VERIF, "tools", "entries.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["pid"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"] or ["return value and output buffer of the public functions"], "hook_needed": None},
        }) + "\n")
        assert len(x["title"]) <= 80, x["title"]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": x["pid"],
        "quick_cmd": f"python3 check.py {x['pid']} --tier quick",
        "thorough_cmd": f"python3 check.py {x['pid']} --tier thorough",
        "technique": x["technique"], "level": x["level"], "level_note": x["note"],
    } for x in P if not x["na"]],
    "not_applicable": [{"property": x["pid"], "reason": x["na"]} for x in P if x["na"]],
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
