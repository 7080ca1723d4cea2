"""C15: state fitting draws its batches from the target distribution and descends the squared distance."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

CONTROL_RNG = True
RULE = ("a state is a history of drawn batches; a transition is one decision of the random number generator; a trace is one execution of the real driver over all its steps, whose "
        "losses and parameters were compared with the reference recursion")
BOUNDS = dict(
    quick="every sequence of two batches of one to three entries of data sets of three and four entries, three batches of two out of three entries, for autoregressive models with "
          "complex and real parameters, constrained and symmetrised; reset after one and two steps",
    thorough="as quick with three batches out of four entries",
)
ASSUMPTIONS = ["the data set has at least as many entries of non-zero amplitude as a batch", "single process"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for name in ("ARqGPS", "ARqGPS/real", "ARPlaquetteqGPS", "ARqGPSFull", "ARqGPS/constrained"):
        for amps in ("generic", "zero", "phase"):
            for batch, steps in ((1, 2), (2, 2), (3, 2)):
                out.append(("%s/%s/b%d" % (name, amps, batch), dict(name=name, amps=amps, batch=batch, steps=steps, n=4 if batch < 3 else 3, opt="Sgd")))
    out.append(("three steps", dict(name="ARqGPS", amps="generic", batch=2, steps=3, n=4 if T else 3, opt="Sgd")))
    out.append(("momentum", dict(name="ARqGPS", amps="generic", batch=2, steps=3, n=3, opt="Momentum")))
    out.append(("own state", dict(name="ARqGPS", amps="generic", batch=2, steps=2, n=3, opt="Sgd", own=True)))
    out.append(("rejections", dict(kind="reject")))
    return out


def run(p, ctx):
    from mc import dense, rng, zoo
    from mc.core import generic
    from GPSKet.driver import ARStateFitting

    L = 2
    if p.get("kind") == "reject":
        hi, other = nk.hilbert.Spin(0.5, N=2), nk.hilbert.Spin(0.5, N=3)
        data = (np.asarray(hi.all_states()), np.ones(4) / 2)
        for ham, model, err in ((nk.operator.Ising(other, nk.graph.Chain(3), h=1.0), zoo.ar_entry("ARqGPS", 2).model, TypeError),
                                (nk.operator.Ising(hi, nk.graph.Chain(2), h=1.0), gmod.qGPS(hi, 2), ValueError)):
            vs = nk.vqs.MCState(nk.sampler.ExactSampler(hi), model, n_samples=4)
            try:
                ARStateFitting(data, ham, nk.optimizer.Sgd(0.1), variational_state=vs)
                raised = None
            except Exception as e:
                raised = type(e)
            ctx.require(raised is err, "a mismatched Hamiltonian or a model without conditionals is refused", got=str(raised))
            ctx.trans()
        ctx.state("reject")
        ctx.trace()
        ctx.sample(rejections=2)
        return
    e = zoo.ar_entry(p["name"], L)
    hi = e.hi
    v0 = e.variables(0)
    n, b = p["n"], p["batch"]
    space = e.space[:n]
    n = len(space)
    if n < b:
        b = n
    amps = generic((n,), 4, "complex" if p["amps"] != "generic" or "real" not in p["name"] else "real")
    if p["amps"] == "zero" and n > b:
        amps[1] = 0.0
    if p["amps"] == "phase":
        amps = np.exp(1j * np.arange(n))
    amps = amps / np.linalg.norm(amps)
    xs = np.asarray(e.inputs(space))
    ham = nk.operator.Ising(hi, nk.graph.Chain(L, pbc=False), h=0.7)
    lr, mom = 0.2, 0.9
    opt = nk.optimizer.Sgd(lr) if p["opt"] == "Sgd" else nk.optimizer.Momentum(lr, beta=mom)
    init = v0["params"]
    fwd = jax.jit(lambda q: e.model.apply({**v0, "params": q}, jnp.asarray(xs)))
    jac = dense.jitted(lambda q: e.model.apply({**v0, "params": q}, jnp.asarray(xs)), init)
    sa = nk.sampler.ExactSampler(hi)
    kw = dict(mini_batch_size=b, seed=7)
    if p.get("own"):
        dr = ARStateFitting((xs, amps), ham, opt, sa, e.model, n_samples=4, **kw)
    else:
        dr = ARStateFitting((xs, amps), ham, opt, variational_state=nk.vqs.MCState(sa, e.model, n_samples=4), **kw)
    like = jax.tree_util.tree_structure(dr.state.parameters)
    dr.state.variables = v0
    init = jax.tree_util.tree_unflatten(like, jax.tree_util.tree_leaves(init))
    opt0 = dr._optimizer_state
    seen = []

    def key(losses, pars):
        return tuple(np.round(np.concatenate([[l] for l in losses] + [pars]), 7).tolist())

    def execute(scripts, extra):
        dr.reset()
        dr.state.parameters = init
        dr._optimizer_state = opt0
        losses, after = [], []
        for _ in range(p["steps"]):
            dr.advance(1)
            losses.append(float(dr.loss))
            after.append(dense.real_vector(dr.state.parameters))
        first = key(losses, after[-1])
        # the same seed after a reset means the same batches
        again = []
        dr.reset()
        dr.state.parameters = init
        dr._optimizer_state = opt0
        for _ in range(p["steps"]):
            dr.advance(1)
            again.append(float(dr.loss))
        ctx.close(again, losses, "losses after a reset", rtol=1e-9, atol=1e-12)
        seen.append((losses, after))
        return [first]

    # reference: all sequences of batches
    q = np.abs(amps) ** 2
    q = q / q.sum()

    def batches():
        out = {}
        for s in itertools.permutations(range(n), b):
            w, left = 1.0, 1.0
            for i in s:
                w *= q[i] / left if q[i] > 0 else 0.0
                left -= q[i]
                left = max(left, 1e-300)
            if w > 0:
                out[tuple(sorted(s))] = out.get(tuple(sorted(s)), 0.0) + w
        return out

    B = batches()
    ctx.close(sum(B.values()), 1.0, "model: batch probabilities")
    want = {}

    def follow(x, m, losses, w, k):
        if k == p["steps"]:
            kk = key(losses, x)
            want[kk] = want.get(kk, 0.0) + w
            return
        tree = jax.tree_util.tree_map(jnp.asarray, dense.unravel(x, init))
        psi = np.exp(np.asarray(fwd(tree), dtype=complex))
        J = jac(tree)
        for s, pr in B.items():
            i = list(s)
            r = psi[i] - amps[i]
            loss = np.mean(np.abs(r) ** 2)
            g = 2 * np.real(np.mean((r.conj() * psi[i])[:, None] * J[i], axis=0))
            m2 = mom * m + g if p["opt"] == "Momentum" else g
            ctx.state((k, s, np.round(x, 9).tobytes()))
            follow(x - lr * m2, m2, losses + [loss], w * pr, k + 1)

    x0 = dense.real_vector(init)
    follow(x0, np.zeros_like(x0), [], 1.0, 0)

    def match(dist):
        """the outcomes agree within rounding"""
        left = dict(want)
        for o, w in dist.items():
            c = [k for k in left if np.allclose(k, o, rtol=1e-5, atol=1e-6)]
            if not c:
                return "an outcome which no sequence of batches explains", o, w
            for k in c[:1]:
                left[k] -= w
        bad = [(k, w) for k, w in left.items() if abs(w) > 1e-9]
        return ("probability of a sequence of batches", bad[0][0], bad[0][1]) if bad else None

    dist, leaves, _ = rng.explore(execute, 1, ctx)
    r = match(dist[0])
    ctx.require(r is None, r[0] if r else "", detail=r, model=p["name"], target=amps)
    ctx.outcome(tuple(sorted(dist[0])))
    ctx.sample(model=p["name"], batches=len(B), outcomes=len(dist[0]))
