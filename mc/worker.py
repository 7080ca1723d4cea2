"""Runs cases of one property which the parent process names on stdin, one JSON line each."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # whatever the code under test prints is not ours
    sys.stdout = os.fdopen(os.dup(devnull), "w")
    warnings.simplefilter("ignore")

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    from mc.core import Ctx, Violation, jsonable

    if b"CONTROL_RNG = True" in open(os.path.join(os.path.dirname(__file__), "props", prop.lower() + ".py"), "rb").read():
        os.environ["MC_RNG"] = "1"  # before anything imports jax.random
    try:
        mod = importlib.import_module("mc.props." + prop.lower())
    except BaseException:
        emit(dict(ready=False, error=traceback.format_exc()))
        return
    emit(dict(ready=True))
    for line in sys.stdin:
        req = json.loads(line)
        name, params = req["name"], req["params"]
        ctx = Ctx(name)
        t = time.time()
        reply = dict(name=name)
        try:
            mod.run(params, ctx)
            reply["ok"] = True
        except Violation as v:
            reply.update(ok=False, what=v.what, detail=jsonable(v.detail))
        except Exception as e:
            reply.update(
                ok=False,
                what="the code under test raised %s" % type(e).__name__,
                detail=dict(error=str(e)[:600], traceback=traceback.format_exc()[-3000:]),
            )
        reply["wall"] = time.time() - t
        reply["res"] = ctx.result()
        with open("/proc/self/statm") as fh:
            reply["mb"] = int(fh.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
        emit(reply)


if __name__ == "__main__":
    main()
