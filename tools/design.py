"""writes DESIGN.md: tools/design/head.md + one section per property (from props.py and the check modules) + tools/design/tail.md"""
import glob, importlib, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, "tools")]
from props import PROPS
COST = json.load(open(root + "/tools/design/cost.json"))
out = [open(root + "/tools/design/head.md").read()]
for p in sorted(PROPS, key=lambda p: p["id"]):
    m = importlib.import_module("mc.props." + p["id"].lower())
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append("- *Explored*: %s.\n" % p["technique"])
    out.append("- *State / transition / trace*: %s.\n" % m.RULE)
    out.append("- *Bounds (quick)*: %s. *Thorough*: %s.\n" % (m.BOUNDS["quick"], m.BOUNDS["thorough"]))
    out.append("- *Assumed*: %s.\n" % "; ".join(m.ASSUMPTIONS))
    out.append("- *Strength*: %s. *Cost*: about %s s.\n" % (p["note"], COST.get(p["id"], "?")))
    out.append("- *Why not tests*: %s\n\n" % p["tests"])
tail = open(root + "/tools/design/tail.md").read()
fixes = {}
for l in open(root + "/known_findings.txt"):
    g = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if g:
        fixes.setdefault(g[1], []).append("%s (`%s`)" % (g[3], g[2]))
tail = tail.replace("@FIXES@", "\n".join("- **%s**: %s." % (k, "; ".join(v)) for k, v in sorted(fixes.items())))
caught = json.load(open(root + "/tools/design/caught.json"))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s: %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], caught.get(n, "?")))
tail = tail.replace("@SEEDS@", "\n".join(rows))
open(root + "/DESIGN.md", "w").write("".join(out) + tail)
