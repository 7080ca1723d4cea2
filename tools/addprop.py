"""addprop.py FILE: appends the P(...) entry in FILE to tools/props.py and regenerates the lists."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
f = here + "/props.py"
s = open(f).read().rstrip()
assert s.endswith("]")
open(f, "w").write(s[:-1] + "    " + open(sys.argv[1]).read().strip() + "\n]\n")
subprocess.check_call([sys.executable, here + "/gen.py"])
subprocess.check_call([sys.executable, here + "/fixes.py"])
