#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS

DEM = "pallets/democracy/src/"
ELE = "pallets/elections-phragmen/src/"
OSV = "pallets/on-slash-vesting/src/"
OUT = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    assert len(title) <= 80, title
    OUT.append(({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}}, na))


HI = ["histories", "inputs", "configurations"]
exec(open(os.path.join(HERE, "props_democracy.py")).read())
for f in ("props_elections.py", "props_vesting.py", "props_linear.py", "props_dispenser.py", "props_receiver.py", "props_staking.py", "props_funding.py", "props_oracle.py"):
    p = os.path.join(HERE, f)
    if os.path.exists(p):
        exec(open(p).read())

NOTE = ("Exhaustive TLC exploration of the specification within the profiles in run/table.py, and conformance of the real pallet to it on "
        "scenarios emitted by TLC plus seeded random histories, every recorded call judged by the same specification. Trusts TLC, the driver's "
        "projection of storage, the mock runtime around the pallet and the registry crates; not a proof beyond the explored bounds.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p, _ in OUT:
        fh.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 run/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the drivers use public calls and public storage only", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run/check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 run/check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "TLA+ specification: TLC model checking + trace validation of the real pallet",
        "level": "model_checking",
        "level_note": NOTE,
    } for p, na in OUT if na is None and p["id"] in PROPS],
    "not_applicable": [{"property": p["id"], "reason": na or "no check yet"} for p, na in OUT if na is not None or p["id"] not in PROPS],
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(OUT), "properties,", len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
