#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, observe, tech=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, state=state or []))

exec(open(os.path.join(here, "tools", "props.py")).read())

SCHED = "stateless model checking of the real code under a controlled scheduler (iterative deviation bounding, state caching)"
SEQ = "exhaustive enumeration of all operation/input sequences up to a bound on the real code, against a reference model"
NOTE = ("Decided on the repository's own code: the working tree is mechanically rewritten so that every goroutine, lock, channel, select, atomic, context, timer, clock, socket, file and racy memory access goes through a controlled runtime, and every execution within the bounds printed in the evidence file is run and checked. "
        "Trusts the rewriter, the runtime and the stand-ins for sockets/WebSocket/KCP/files; memory is sequentially consistent; nothing is claimed beyond the stated bounds. ")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "state": x["state"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")

checks = []
for x in P:
    if x["id"] in NA:
        continue
    checks.append({"property": x["id"],
        "quick_cmd": "bash run.sh %s quick" % x["id"],
        "thorough_cmd": "bash run.sh %s thorough" % x["id"],
        "evidence_file": "evidence/%s.json" % x["id"],
        "technique": SCHED if x["tech"] == "sched" else SEQ if x["tech"] == "seq" else SCHED + "; " + SEQ,
        "level": "model_checking",
        "level_note": NOTE + (x["note"] or "")})
m = {"version": 1, "setup_cmd": "bash run.sh SETUP quick", "hooks": {"guard": "none", "enable": "The checks rewrite a scratch copy of /repo's working tree; nothing is compiled into /repo itself.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Every check copies and rewrites /repo's current working tree into a scratch directory, builds it with the runtime and harness of /verif/rt, and explores. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
