#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of operation sequences on the real stores against a list model"
SEQNOTE = "every operation sequence within the stated depth is executed on the real store; assumes goleveldb, the Go runtime and the in-memory device behave as documented"
CLAIMED = {
 "C01": (SEQ, "model_checking", SEQNOTE),
 "C03": (SEQ, "model_checking", SEQNOTE),
 "C04": (SEQ, "model_checking", SEQNOTE),
 "C05": (SEQ, "model_checking", SEQNOTE),
 "C06": (SEQ, "model_checking", SEQNOTE),
}
NA = {}
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "hooks": {"guard": "none: instrumentation is generated by tools/gen_overlay.py and mc/instr into build/ and applied with go build -overlay; /repo carries no hooks", "enable": "go build -overlay build/overlay.json (see check.sh)", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "check.sh PROP [quick|thorough]; check.sh replay FILE re-runs a counterexample.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, lvl, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": lvl, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed")
