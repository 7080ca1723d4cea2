"""python -m mc.run <PROPERTY> [quick|thorough]

Distributes the cases of a property over worker processes, merges what they explored, writes
evidence/<PROPERTY>.json and, on a violation, a replay file."""
import importlib
import json
import os
import select
import subprocess
import sys
import time

os.environ["MC_PARENT"] = "1"  # the parent only enumerates cases, it never imports the code under test

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    """Lines 'known: property=<id> case=<case> :: <what>' of known_findings.txt."""
    found = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else ():
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            head, _, what = line.partition(" :: ")
            case = head.split("case=", 1)[1].strip()
            found.append((case, what.strip()))
    return found


class Worker:
    def __init__(self, prop, tier):
        self.proc = subprocess.Popen(
            [sys.executable, "-u", "-m", "mc.worker", prop, tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            cwd=HERE, start_new_session=True,
            env={k: v for k, v in os.environ.items() if k != "MC_PARENT"},
        )
        os.set_blocking(self.proc.stdout.fileno(), False)
        os.set_blocking(self.proc.stderr.fileno(), False)
        self.buf = b""
        self.err = b""
        self.case = None
        self.ready = False

    def send(self, case):
        self.case = case
        self.proc.stdin.write((json.dumps(case) + "\n").encode())
        self.proc.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except ProcessLookupError:
            pass
        self.proc.wait()


def explore(prop, tier, cases, jobs, deadline):
    """Returns (results, failures); every case ends up in exactly one of them."""
    todo = list(cases)[::-1]
    results, failures = [], []
    retried = {}
    workers = [Worker(prop, tier) for _ in range(min(jobs, len(todo)))]
    stop = False
    while workers:
        if time.time() > deadline:
            for w in workers:
                if w.case is not None:
                    failures.append(dict(name=w.case["name"], params=w.case["params"],
                                         what="the case did not terminate within the time limit", detail={}))
                w.kill()
            if not failures:
                failures.append(dict(name="(start)", params={}, what="the workers did not start within the time limit", detail={}))
            return results, failures
        fds = [w.proc.stdout for w in workers] + [w.proc.stderr for w in workers]
        r, _, _ = select.select(fds, [], [], 1.0)
        for w in list(workers):
            if w.proc.stderr in r:
                data = w.proc.stderr.read()
                if data:
                    w.err = (w.err + data)[-4000:]
            if w.proc.stdout not in r:
                continue
            data = w.proc.stdout.read()
            if data:
                w.buf += data
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                msg = json.loads(line)
                if "ready" in msg:
                    if not msg["ready"]:
                        failures.append(dict(name="(import)", params={}, what="the code under test cannot be imported",
                                             detail=dict(error=msg["error"][-3000:])))
                        todo = []
                        w.kill()
                        if w in workers:
                            workers.remove(w)
                        break
                    w.ready = True
                else:
                    msg["params"] = w.case["params"]
                    w.case = None
                    (results if msg["ok"] else failures).append(msg)
                    if not msg["ok"]:
                        results.append(msg)
                    if msg.get("mb", 0) > 2000 and len(todo) > 0 and len(failures) < 5:
                        # compiled code piles up: go on in a new process
                        w.proc.stdin.close()
                        w.ready = False
                        workers.append(Worker(prop, tier))
                if w.ready and w.case is None:
                    # after several independent violations there is no point in going on
                    if todo and len(failures) < 5:
                        w.send(todo.pop())
                    else:
                        w.proc.stdin.close()
                        w.ready = False
            if data == b"" and w in workers:  # end of file
                w.proc.wait()
                workers.remove(w)
                if w.case is not None:
                    name = w.case["name"]
                    retried[name] = retried.get(name, 0) + 1
                    if retried[name] <= (3 if w.proc.returncode == -9 else 1):  # (-9: memory ran out)
                        nw = Worker(prop, tier)
                        todo.append(w.case)
                        workers.append(nw)
                    else:
                        failures.append(dict(name=name, params=w.case["params"],
                                             what="the process died (exit %s)" % w.proc.returncode,
                                             detail=dict(stderr=w.err.decode(errors="replace")[-1500:])))
                        if todo:
                            workers.append(Worker(prop, tier))
                elif w.proc.returncode == -9 and todo and len(failures) < 5:
                    workers.append(Worker(prop, tier))
                elif not w.ready and w.proc.returncode not in (0, -9) and todo:
                    failures.append(dict(name="(start)", params={}, what="the process died while importing (exit %s)" % w.proc.returncode,
                                         detail=dict(stderr=w.err.decode(errors="replace")[-1500:])))
                    todo = []
    return results, failures


def main(argv):
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[2] if len(argv) > 2 else None
    jobs = int(os.environ.get("MC_JOBS", str(min(8, os.cpu_count() or 1))))
    limit = float(os.environ.get("MC_LIMIT", "800" if tier == "quick" else "14000"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    spec = importlib.import_module("mc.props." + prop.lower())
    cases = [dict(name=n, params=p) for n, p in spec.cases(tier)]
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    if only:
        cases = [c for c in cases if only in c["name"]]
    results, failures = explore(prop, tier, cases, jobs, t0 + limit)

    known = known_findings(prop)
    new, seen_known = [], []
    for f in failures:
        hit = [k for k in known if k[0] == f["name"] and k[1] == f["what"]]
        (seen_known if hit else new).append(f)

    states, outcomes, samples = set(), set(), []
    trans = traces = evals = 0
    for r in results:
        states.update(r["res"]["states"])
        outcomes.update(r["res"]["outcomes"])
        trans += r["res"]["trans"]
        traces += r["res"]["traces"]
        evals += r["res"]["evals"]
        samples += r["res"]["samples"]
    wall = time.time() - t0
    done = len(results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=trans, traces_validated_against_impl=traces,
            cases_explored=done, cases_in_bounds=len(cases), comparisons_made=evals,
            distinct_outcomes=len(outcomes),
            exhaustive=(done == len(cases) and not new and not only),
            rule=spec.RULE, bounds=spec.BOUNDS[tier] if isinstance(spec.BOUNDS, dict) else spec.BOUNDS,
            samples=samples[:6] or [dict(case=c["name"]) for c in cases[:3]],
            slowest_cases=[[r["name"], round(r["wall"], 1)] for r in sorted(results, key=lambda r: -r["wall"])[:5]],
        ),
        assumptions=list(spec.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(new),
    )
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d wall=%.1fs"
          % (prop, tier, done, len(cases), len(states), trans, traces, evals, len(outcomes), wall))
    for f in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["name"], f["what"]))
    if new:
        path = os.path.join(EVID, "%s.replay.json" % prop)
        with open(path, "w") as fh:
            json.dump(dict(property=prop, tier=tier,
                           violations=[dict(case=f["name"], params=f["params"], what=f["what"], detail=f.get("detail")) for f in new]),
                      fh, indent=1)
        for f in new[:5]:
            d = dict(f.get("detail") or {})
            d.pop("traceback", None)
            print("  case %s: %s %s" % (f["name"], f["what"], json.dumps(d)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
