#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, results committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every recorded behaviour of the real tools is validated by TLC against the TLA+ specification; assurance is bounded by the "
        "scenarios recorded (seeded generator, counts in the evidence). Trusted: TLC, the recorder and its independent parser of the compiled format.")
TECH = "TLA+ specification; TLC trace validation of recorded tool runs"

P = []


def prop(id, title, statement, over, quant, tests, files, mech, tech=TECH, note=NOTE, observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": tests,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe) or ["command line tools: exit status and files written"], "hook_needed": None},
              "_tech": tech, "_note": note})


exec(open(os.path.join(V, "meta", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/%s.py quick" % p["id"],
                 "thorough_cmd": "python3 checks/%s.py thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["_tech"], "level": "model_checking", "level_note": p["_note"]} for p in P
                if os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))],
     "not_applicable": [],
     "notes": "TLA+ with TLC. See DESIGN.md. No hooks in /repo: the harness in /verif links /repo's sources."}
assert len(m["checks"]) == len(P)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
