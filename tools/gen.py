#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, obs, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, obs=obs, note=note, na=na))

COMMON = ("Seeded search over whole-system simulations of the real server, player and infoer code; holds on everything explored in a run, not a proof. "
          "Trusts the simulated kernel (network, disk, clock, scheduler), and the stubs for mp3 decoding, the audio device, the ssh transport and the terminal. ")

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {"guard": "none", "enable": "No hooks were added to /repo: run.sh copies the working tree into a scratch directory and rewrites the imports of its packages (net, os, time, sync, ...) and its go/chan/select statements to the simulator's.", "source_commits": []},
    "checks": [],
    "not_applicable": [],
}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "./run.sh check %s quick" % p["id"],
        "thorough_cmd": "./run.sh check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
        "level": "exploration",
        "level_note": COMMON + p["note"],
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
