"""C22: experiments that are killed anywhere continue from their latest checkpoint as if nothing had happened."""
import csv
import io
import os
import re

import numpy as np

from mc import crash

RULE = ("a state is the contents of the working directory left behind by a kill; a transition is one run of the script from it; a trace is one killed experiment followed "
        "to its end and compared with the uninterrupted one")
BOUNDS = dict(
    quick="six experiments (ARGPS: Hubbard, Heisenberg, hydrogen; CPD backflow: Hubbard, hydrogen sheet with an exchange cutoff, molecule) on 2-4 orbitals or spins, two or three "
          "optimisation steps with one or two checkpoints, with and without descent finishing and evaluation; a kill at and right after every file "
          "operation, and torn writes (empty, header only, half) of every file",
    thorough="as quick, and a second kill at every file operation of the continued run, for every first kill",
)
ASSUMPTIONS = ["the samples of every step are the whole configuration space (so that a step is a function of the checkpointed state)",
               "a crash kills the process; text of less than a buffer is written in one piece", "single process (one MPI rank)",
               "the continued run is started with --workdir alone if a configuration was saved, with the original command line otherwise"]

ALL = {("argps", "hubbard"): 3, ("argps", "heisenberg"): 3, ("argps", "hydrogen"): 3,  # and their number of steps
       ("cpd_backflow", "hubbard"): 5, ("cpd_backflow", "hsheet"): 5, ("cpd_backflow", "h2"): 2}
PARTS = 3


def cases(tier):
    T = tier == "thorough"
    n = 12 if T else PARTS
    return [("%s/%s/%d" % (s, x, k), dict(script=s, name=x, part=k, parts=n, T=T)) for s, x in reversed(list(ALL)) for k in range(n)]


def cut(f, old, new):
    """what a kill leaves of a file: buffers go to disk in one piece"""
    append = old is not None and new.startswith(old)
    out = [] if append else [0]
    if not f.endswith((".csv", ".yaml")):
        out += [n for n in (128, len(new) // 2) if 0 < n < len(new) and (n != 128 or f.endswith(".npy"))]
    return sorted(set(out))


def flat(t, pre=""):
    if isinstance(t, dict):
        r = {}
        for k, v in t.items():
            r.update(flat(v, pre + "/" + str(k)))
        return r
    return {pre: t}


def mpack(raw):
    from flax import serialization

    return {k: v for k, v in flat(serialization.msgpack_restore(raw)).items() if v is not None}


def checkpoints(d):
    return {int(m[1]): p for p in d for m in [re.fullmatch(r"checkpoints/checkpoint_(\d+)", p)] if m}


def rows(raw):
    return list(csv.DictReader(io.StringIO(raw.decode())))


def number(s):
    return complex(s.replace(" ", "")) if s not in ("", None) else None


def run(p, ctx):
    from mc import experiments as X

    X.full_space()
    script, name = p["script"], p["name"]
    conf = "--config=%s/expconf/%s.py:%s" % (os.path.dirname(X.__file__), script.split("_")[0], name)
    with crash.Scratch() as d:
        X.cache(os.path.join(os.path.dirname(d), "jit"))
        start = ["--workdir=" + d, conf]
        states, _ = crash.crash_states(d, lambda: X.run(script, start), cut=cut)
        end = crash.read(d)
        last = max(checkpoints(end))
        total = ALL[script, name]
        ctx.require(last == total, "last checkpoint of the uninterrupted experiment", last=last)
        final = mpack(end["checkpoints/checkpoint_%d" % last])
        table = {int(r["Step"]): r for r in rows(end["metrics.csv"])}
        ctx.require(sorted(table) == list(range(1, total + 1)), "steps of the uninterrupted experiment", steps=sorted(table))
        best = mpack(end["best_params.mpack"]) if "best_params.mpack" in end else None

        def compare(what, before):
            note = dict(experiment=script + "/" + name, crash=what)
            got = crash.read(d)
            ctx.trans()
            ctx.trace()
            ck = checkpoints(got)
            ctx.require(ck and max(ck) == total, "the continued experiment did not reach its last step", found=sorted(ck), **note)
            new = mpack(got[ck[total]])
            ctx.require(new.keys() == final.keys(), "contents of the last checkpoint", found=sorted(new), **note)
            for k in final:
                ctx.close(new[k], final[k], "state after the continued experiment differs from the uninterrupted one", rtol=1e-6, atol=1e-8, entry=k, **note)
            for f in ("metrics.csv",) + (("evals.csv",) if "evals.csv" in end else ()):
                r, r0 = rows(got[f]), rows(end[f])
                ctx.require(r and list(r[0]) == list(r0[0]), "header of " + f, found=list(r[0]) if r else None, **note)
                ctx.require(all(None not in x and None not in x.values() for x in r), "rows of " + f, **note)
                byst = {int(x["Step"]): x for x in r}
                ctx.require(sorted(byst) == sorted(int(x["Step"]) for x in r0), "steps in " + f, found=sorted(byst), **note)
                for x in r:
                    y = {int(z["Step"]): z for z in r0}[int(x["Step"])]
                    for c in ("Mean", "Variance"):
                        ctx.close(number(x[c]), number(y[c]), "%s in %s" % (c, f), rtol=1e-6, atol=1e-8, step=x["Step"], **note)
            had = max(checkpoints(before or {}), default=0)
            done = [int(x["Step"]) for x in rows((before or {}).get("metrics.csv", b""))]
            new_rows = [int(x["Step"]) for x in rows(got["metrics.csv"])][len(done):]
            ctx.require(new_rows == list(range(had + 1, total + 1)), "the continued experiment did not start from the latest checkpoint", checkpoint=had, steps=new_rows, **note)
            ctx.require(got["config.yaml"] == end["config.yaml"], "configuration saved by the continued experiment", **note)
            if best is not None:
                b = mpack(got["best_params.mpack"])
                ctx.require(b.keys() == best.keys(), "contents of the best parameters", **note)
                for k in best:
                    ctx.close(b[k], best[k], "best parameters of the continued experiment", rtol=1e-6, atol=1e-8, entry=k, **note)

        for i, (what, snap) in enumerate(states):
            if i % p["parts"] != p["part"]:
                continue
            crash.write(d, snap)
            argv = ["--workdir=" + d] if snap and "config.yaml" in snap else start
            ctx.state(("kill", i))
            if not p["T"]:
                X.run(script, argv)
                compare(what, snap)
                continue
            again, _ = crash.crash_states(d, lambda: X.run(script, argv), cut=lambda f, old, new: cut(f, old, new)[:1])
            compare(what, snap)
            for j, (what2, snap2) in enumerate(again):
                crash.write(d, snap2)
                ctx.state(("kill", i, j))
                X.run(script, ["--workdir=" + d] if snap2 and "config.yaml" in snap2 else start)
                compare(what + ", then " + what2, snap2)
        ctx.sample(experiment=script + "/" + name, kills=len(states))
