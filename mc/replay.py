"""python -m mc.replay <replay file>: executes the recorded cases again, one process, no explorer."""
import importlib
import json
import sys
import traceback

from mc.core import Ctx, Violation


def main(path):
    rec = json.load(open(path))
    mod = importlib.import_module("mc.props." + rec["property"].lower())
    bad = 0
    for v in rec["violations"]:
        try:
            mod.run(v["params"], Ctx(v["case"]))
            print("case %s: no violation" % v["case"])
        except Violation as e:
            bad += 1
            print("case %s: %s %s" % (v["case"], e.what, json.dumps(e.detail, default=repr)))
        except Exception:
            bad += 1
            print("case %s raised\n%s" % (v["case"], traceback.format_exc()))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
