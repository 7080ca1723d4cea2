"""plant.py SPEC.py: writes seeded/<id>/ from a spec defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python).
Confirms in /repo's working tree (restored afterwards): builds, stable tests pass, demo 0 before / nonzero after, and says which check catches it."""
import json, os, subprocess, sys
root = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "%s/seeded/%s" % (root, ns["ID"])
os.makedirs(d, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('''#!/bin/bash
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
cd /repo && PYTHONPATH=/repo PYTHONWARNINGS=ignore exec "$PY" "$here/demo.py"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
r = sh("bash %s/demo.sh" % d)
print("demo unchanged:", r.returncode, (r.stdout + r.stderr)[-800:] if r.returncode else "")
ok = r.returncode == 0
try:
    for f, old, new in ns["EDITS"]:
        s = open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open("/repo/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /opt/vp/build.sh"); print("build:", r.returncode, r.stderr[-300:]); ok &= r.returncode == 0
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    passed = set(json.load(open("/tmp/plant.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base if isinstance(base, list) else base.get("passed") or base.get("stable")
    print("missing stable tests:", set(base) - passed); ok &= not (set(base) - passed)
    r = sh("bash %s/demo.sh" % d); print("demo patched:", r.returncode, (r.stdout + r.stderr).strip()[-300:]); ok &= r.returncode != 0
    if "--nocheck" not in sys.argv:
        for p in [ns["PROPERTY"]] + [a for a in sys.argv[2:] if a.startswith("C")]:
            r = sh("./check.sh %s quick" % p, cwd=root)
            print("check", p, r.returncode, r.stdout.strip()[-400:])
finally:
    sh("git -C /repo checkout -- .")
    sh("find /repo -name __pycache__ -prune -exec true ';'")
print("KEEP" if ok else "REJECT", ns["ID"])
