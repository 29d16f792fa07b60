#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and harness/checks.json. Run: python3 tools/mkmeta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), claimed=True, tools=(), race=False,
         technique="", note="", assumptions=(), na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), claimed=claimed, tools=list(tools), race=race,
                  technique=technique, note=note, assumptions=list(assumptions), na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
       "notes": "Black-box harness: no hooks in /repo. Every check builds the harness, the library and the command line "
                "tools from /repo's working tree and searches generated inputs with rapid (vendored in harness/gopath)."}
cfg = {}
for p in P:
    if p["claimed"]:
        man["checks"].append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                              "thorough_cmd": "./check %s --tier thorough" % p["id"],
                              "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                              "level": "exploration", "level_note": p["note"]})
        cfg[p["id"]] = {"tools": p["tools"], "race": p["race"], "assumptions": p["assumptions"]}
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
json.dump(cfg, open(os.path.join(V, "harness", "checks.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
