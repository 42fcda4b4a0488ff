#!/usr/bin/env python3
"""replay.py FILE: perform the scenario of a reported violation on the real code again and print what the specification objects to."""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

d = json.load(open(sys.argv[1]))
fam = check.PROPS[d["property"]]["fam"]
check.overrides()
binary, _ = check.build(fam)
if "args" in d:
    print(check.drive(binary, d["args"]))
    sys.exit(0)
with tempfile.TemporaryDirectory() as w:
    sf, tr = os.path.join(w, "s.jsonl"), os.path.join(w, "t.ndjson")
    open(sf, "w").write(json.dumps(d["scenario"]) + "\n")
    check.drive(binary, ["--out", tr, "--script", sf])
    n, fl, cov, lines = check.validate(w, fam, tr, "v")
    for k, l in enumerate(lines):
        r = json.loads(l)
        print(k + 1, json.dumps(r["o"]), json.dumps(r["r"]))
        for f in fl:
            if f["line"] == k + 1:
                print("    !!", f["fails"])
