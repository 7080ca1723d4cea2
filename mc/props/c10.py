"""C10: the exclusion process operator is the tilted Markov generator of the open ASEP."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (parameters, configuration) whose jump rates and escape rate were compared with the explicit process; a "
        "transition is one delivered matrix element; a trace is one complete operator")
BOUNDS = dict(
    quick="1-5 sites; every single rate alone (the operator is linear in them), all combinations of two values per rate, "
          "three values of the counting field; every configuration alone, in one batch and padded; 7 and 9 sites with generic rates",
    thorough="as quick up to 8 sites, with all combinations of two values per rate at every size",
)
ASSUMPTIONS = ["row x of the operator holds the transitions out of configuration x"]
RATES = ("alpha", "beta", "gamma", "delta", "p", "q")


def cases(tier):
    out = []
    for L in range(1, 6 if tier == "quick" else 9):
        out.append(("unit/L%d" % L, dict(L=L, kind="unit")))
        for lam in (0.0, 0.4, -0.9):
            out.append(("all/L%d/%s" % (L, lam), dict(L=L, kind="all", lam=lam, full=tier == "thorough" or L <= 3)))
    for L in (7, 9) if tier == "quick" else (10,):
        out.append(("large/L%d" % L, dict(L=L, kind="large")))
    return out


def reference(basis, L, lam, r):
    index = {c: i for i, c in enumerate(basis)}
    W = np.zeros((len(basis),) * 2)

    def jump(c, d, rate, up):
        """rate out of c into d; the counting field counts +1 for current to the right"""
        W[index[c], index[d]] += rate * np.exp(lam if up else -lam)
        W[index[c], index[c]] -= rate

    for c in basis:
        def put(*changes):
            d = list(c)
            for k, v in changes:
                d[k] = v
            return tuple(d)
        if c[0] == 0:
            jump(c, put((0, 1)), r["alpha"], True)
        else:
            jump(c, put((0, 0)), r["gamma"], False)
        if c[L - 1] == 0:
            jump(c, put((L - 1, 1)), r["beta"], False)
        else:
            jump(c, put((L - 1, 0)), r["delta"], True)
        for i in range(L - 1):
            if c[i] == 1 and c[i + 1] == 0:
                jump(c, put((i, 0), (i + 1, 1)), r["p"], True)
            if c[i] == 0 and c[i + 1] == 1:
                jump(c, put((i, 1), (i + 1, 0)), r["q"], False)
    return W


def run(p, ctx):
    L = p["L"]
    hi = nk.hilbert.Qubit(L)
    basis = [tuple(c) for c in itertools.product((0, 1), repeat=L)]
    index = {c: i for i, c in enumerate(basis)}
    X = np.array(basis)

    def compare(op, W, tag, rows, x, sections, xp, mels):
        start = 0
        ctx.require(sections[-1] == len(mels) == len(xp), "sections", **tag)
        for k, row in enumerate(rows):
            got = np.zeros(len(basis))
            for j in range(start, sections[k]):
                if mels[j] != 0:
                    key = tuple(int(v) for v in xp[j])
                    ctx.require(key in index, "left the space", x=basis[row], xp=list(xp[j]), **tag)
                    got[index[key]] += mels[j]
            ctx.trans(sections[k] - start)
            ctx.close(got, W[row], "transition rates", x=basis[row], **tag)
            ctx.state((tuple(sorted(tag.items())), row))
            start = sections[k]

    def check(lam, r, deep):
        tag = dict(lam=lam, **r)
        op = gham.AsymmetricSimpleExclusionProcess(hi, lambd=lam, **r)
        W = reference(basis, L, lam, r)
        n = len(basis)
        for dt in (np.int8, np.float64) if deep else (np.int8,):
            x = X.astype(dt)
            keep = x.copy()
            sec = np.zeros(n, dtype=np.int64)
            xp, mels = op.get_conn_flattened(x, sec)
            ctx.require(np.array_equal(x, keep), "changed its argument", **tag)
            compare(op, W, tag, range(n), x, sec, np.asarray(xp), np.asarray(mels))
        if deep:
            for row in range(n):
                xp, mels = op.get_conn(X[row])
                compare(op, W, tag, [row], X[row], [len(mels)], np.asarray(xp), np.asarray(mels))
            rows = [k for k in range(n)[::-1] for _ in (0, 1)]
            sec = np.zeros(len(rows), dtype=np.int64)
            xp, mels = op.get_conn_flattened(X[rows], sec)
            compare(op, W, tag, rows, X[rows], sec, np.asarray(xp), np.asarray(mels))
            ctx.close(op.to_dense(), W, "dense matrix", **tag)
            if lam == 0:
                ctx.close(np.asarray(op.to_dense()).sum(axis=1), np.zeros(n), "probability conservation", **tag)
        balanced = lam == 0 and r["alpha"] == r["gamma"] and r["beta"] == r["delta"] and r["p"] == r["q"]
        ctx.require(bool(op.is_hermitian) == balanced, "hermiticity flag", flag=bool(op.is_hermitian), **tag)
        if op.is_hermitian:
            ctx.close(W, W.T, "declared hermitian", **tag)
        ctx.trace()

    if p["kind"] == "large":
        for lam in (0.0, 0.4):
            check(lam, {k: 0.3 + 0.17 * i for i, k in enumerate(RATES)}, lam != 0)
        check(0.0, dict(alpha=0.7, gamma=0.7, beta=0.2, delta=0.2, p=0.4, q=0.4), False)
        ctx.sample(L=L)
    elif p["kind"] == "unit":
        for lam in (0.0, 0.4, -0.9):
            for one in RATES:
                check(lam, {k: (1.0 if k == one else 0.0) for k in RATES}, True)
            check(lam, {k: 0.3 + 0.17 * i for i, k in enumerate(RATES)}, True)
        op = gham.AsymmetricSimpleExclusionProcess(hi)
        ctx.close(op.to_dense(), reference(basis, L, 0.0, {k: 0.5 for k in RATES}), "defaults")
    else:
        combos = list(itertools.product((0.5, 0.8), repeat=6))
        for k, combo in enumerate(combos):
            if p["full"] or k % 5 == 0 or k == len(combos) - 1:
                check(p["lam"], dict(zip(RATES, combo)), False)
    ctx.sample(sites=L, kind=p["kind"])
