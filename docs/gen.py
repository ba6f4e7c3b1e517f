import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()),
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 -m compileall -q va checks >/dev/null 2>&1 || true",
         checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                      technique=p["tech"], level=p["level"], level_note=p["note"]) for p in P],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
