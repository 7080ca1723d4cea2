"""Writes the 'fixed:' lines of known_findings.txt from the fix commits in /repo (a line suppresses nothing)."""
import subprocess, os
MAP = """C07 C07 C01 C01 C03 C03 C08 C08 C08 C08 C03 C11 C11 C06 C10 C08 C04 C21 C21 C14 C14 C21 C21 C12 C12 C02 C18 C20 C16 C16 C16 C16 C16 C16 C02 C08""".split()
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixes_map.txt")
if os.path.exists(EXTRA):
    MAP += open(EXTRA).read().split()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if l.split(" ", 1)[1].startswith("fix: ")]
assert len(log) == len(MAP), (len(log), len(MAP))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = root + "/known_findings.txt"
keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(path) else [
    "# known: property=<id> case=<case> :: <what fails>     (reported as KNOWN-FINDING, does not fail the check)",
    "# fixed: property=<id> <commit> <what failed>          (suppresses nothing)"]
with open(path, "w") as f:
    f.write("\n".join(keep) + "\n")
    for l, p in zip(log, MAP):
        h, s = l.split(" ", 1)
        f.write("fixed: property=%s %s %s\n" % (p, h, s[5:]))
