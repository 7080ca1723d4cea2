import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert all(os.path.exists("/repo/" + x) for x in p["files"]), p["id"]
json.dump(dict(
    version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                 technique=p["technique"], level="model_checking", level_note=p["note"]) for p in sorted(PROPS, key=lambda p: p["id"])],
    not_applicable=[],
    notes="No hooks are needed in /repo: the checks import the Python sources of /repo's working tree directly. "
          "mc/replay.py <replay file> re-executes the failing case of a violation.",
), open(root + "/MANIFEST.json", "w"), indent=1)
