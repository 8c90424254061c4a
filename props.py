#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and rules.json:  python3 props.py  rewrites the three."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
I = "include/nwgraph/"
P = []


def prop(id, title, statement, over, text, why, files, mech, rule, note, tech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                           "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                           "observe_at": list(observe), "hook_needed": None}, rule=rule, note=note, tech=tech))


exec(open(os.path.join(V, "props_data.py")).read())

built = {p["id"] for p in P if glob.glob(os.path.join(V, "checks", p["id"] + "_*.cpp")) or glob.glob(os.path.join(V, "checks", p["id"] + ".cpp"))}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
na = [{"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")} for p in P if p["id"] not in built]
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.exit(0)\" && g++ --version",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["id"] in built],
    "not_applicable": na,
    "notes": "One harness binary per file checks/<ID>_*.cpp, compiled from /repo's headers at every run (results cached by content hash in .cache, git-ignored). lib/pbt.hpp is the engine, lib/gen.hpp the generators and reference algorithms. Replay: <binary> --replay replays/<file>.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: p["rule"] for p in P}, open(os.path.join(V, "rules.json"), "w"), indent=1)
print(len(P), "properties,", len(built), "claimed")
