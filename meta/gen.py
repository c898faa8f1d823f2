#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the rule registry"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, "sa")]
import props, check, rulekit
check.load_rules()
done = set(rulekit.REGISTRY)
ids = [x["id"] for x in props.P]
assert len(set(ids)) == len(ids) and done <= set(ids), done - set(ids)
import glob
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for x in props.P:
        files = []
        for n, w in x["mech"]:
            for f in re.findall(r"(?:src|include)/[\w/.*{},]+", w):
                f = f.rstrip("/,")
                g = [f] if "{" not in f else [f.replace(m.group(0), y) for m in [re.search(r"\{([^}]*)\}", f)] for y in m.group(1).split(",")]
                for y in g:
                    for z in sorted(glob.glob(os.path.join("/repo", y), recursive=True)) or []:
                        z = os.path.relpath(z, "/repo")
                        if os.path.isfile(os.path.join("/repo", z)) and z not in files:
                            files.append(z)
        assert len(x["title"]) <= 80, x["title"]
        o.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["qtext"]},
                            "why_tests_cant": x["why"], "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}}) + "\n")
NOTE = ("Sound for the modelled semantics: every path of the analysed functions (loops summarised, callees inlined or havocked) has to satisfy the rule; "
        "trusts clang's AST, the models of standard containers and smart pointers in sa/engine.py, and that handlers of one locality run one after another.")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "python3 sa/check.py --list names the rule functions behind each property; DESIGN.md explains the method."}
for x in props.P:
    if x["id"] in done:
        cmd = "python3 sa/check.py " + x["id"]
        m["checks"].append({"property": x["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": x["technique"] or props.FLOW, "level": "other", "level_note": x["note"] or NOTE})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"] or "no sound static check built for it (yet): see DESIGN.md"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(done), "claimed", len(m["not_applicable"]), "not claimed")
