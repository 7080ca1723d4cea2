"""C21: geometric tensors of weighted and RMSProp-regularised states and the preconditioners built on them."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (tensor, model, sequence of samples, options) whose dense matrix, products and solutions were compared with the definition; a transition is one tensor evaluated on one "
        "sequence of samples (one step of a preconditioner); a trace is one history")
BOUNDS = dict(
    quick="every sequence of three samples of two spins (64), weights from counts and from the full distribution; complex, real and real-to-complex models; shifts 0, 0.2, 1 and schedules; chunk "
          "sizes none, 1, 3; every sequence of two sets of two samples for the preconditioner's moving average (256) and of three out of five, two histories of ten steps",
    thorough="as quick, every sequence of four samples and of three sets",
)
ASSUMPTIONS = ["the on-the-fly RMSProp tensor has real parameters", "solutions are compared for well-conditioned matrices"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for model in ("qGPS", "qGPS/real", "phase", "two"):
        modes = {"qGPS": (None,), "two": (None,), "qGPS/real": (None, "real"), "phase": (None, "real", "complex")}[model]
        for mode in modes:
            for kind in ("rms", "rms-unique", "rms-full"):
                for chunk in ((None, 1, 3) if kind != "rms-full" else (None, 2)):
                    out.append(("%s/%s/%s/%s" % (kind, model, mode, chunk), dict(kind=kind, model=model, mode=mode, chunk=chunk, T=T)))
            out.append(("unique/%s/%s" % (model, mode), dict(kind="unique", model=model, mode=mode, chunk=None, T=T)))
        if model not in ("qGPS", "two"):
            out.append(("rms-onthefly/%s" % model, dict(kind="rms-onthefly", model=model, mode=None, chunk=None, T=T)))
        else:
            out.append(("rms-holomorphic/%s" % model, dict(kind="rms-holomorphic", model=model, mode=None, chunk=None, T=T)))
        out.append(("unique/%s/chunk3" % model, dict(kind="unique", model=model, mode=None, chunk=3, T=T)))
        for which in ("netket", "unique"):
            out.append(("srdense/%s/%s" % (model, which), dict(kind="srdense", model=model, which=which, mode=None, chunk=None, T=T)))
        for k, o in enumerate([dict(), dict(decay=0.5, shift=0.3, eps=1e-3, scale=0.2), dict(decay=0.9, shift="schedule", eps=1e-2), dict(decay=0.0, shift=1.0, eps=0.1)]):
            out.append(("preconditioner/%s/dense/%d" % (model, k), dict(kind="pre", model=model, qgt="dense", mode=None, chunk=None, o=o, T=T)))
            if model not in ("qGPS", "two") and k < 3:
                out.append(("preconditioner/%s/onthefly/%d" % (model, k), dict(kind="pre", model=model, qgt="onthefly", mode=None, chunk=None, o=o, T=T)))
    return out


def schedule(step):
    return 0.4 / (1.0 + step)


def CG(A, b, x0=None):
    return jax.scipy.sparse.linalg.cg(A, b, x0=x0, tol=1e-13, atol=0.0, maxiter=500)


def tensor(J, w, mode):
    """weighted centred covariance of the derivatives, in the real representation of the parameters"""
    O = J - w @ J
    if mode == "real":
        O = O.real
    return ((O.conj().T * w) @ O).real


def run(p, ctx):
    from mc import dense, scripted, zoo
    from mc.core import fill, generic
    from GPSKet.optimizer import SRDense, SRRMSProp
    from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTJacobianDenseUniqueSamples, QGTOnTheFlyRMSProp
    from GPSKet.vqs import MCStateUniqueSamples

    Q, R = scripted.QUEUE, scripted.RANDOM
    hi = scripted.ScriptedSpin(0.5, N=2)
    space = [tuple(int(v) for v in c) for c in ref.spins(2)]
    if p["model"] in ("phase", "two"):
        model = dense.Phase() if p["model"] == "phase" else dense.Two()
        v0 = fill(model.init(jax.random.PRNGKey(0), jnp.zeros((1, 2))), 3)
    else:
        e = zoo.spin_entry(p["model"], 2)
        model, v0 = e.model.clone(hilbert=hi), e.variables(0)
    n = 2 if p["kind"] == "pre" else 4 if p["T"] else 3
    R[:] = [space[0]] * 50
    Q[:] = [space[0]] * 50
    sa = scripted.make(hi, n_chains=1, sweep_size=1)
    uniq = p["kind"] in ("unique", "rms-unique") or p.get("which") == "unique"
    if p["kind"] == "rms-full":
        vs = nk.vqs.FullSumState(hi, model, chunk_size=p["chunk"], seed=0)
    else:
        kw = dict(max_sampling_steps=1, batch_size=n) if uniq else {}
        vs = (MCStateUniqueSamples if uniq else nk.vqs.MCState)(sa, model, n_samples=n, n_discard_per_chain=0, chunk_size=p["chunk"], seed=0, **kw)
    vs.variables = v0
    init = v0["params"]
    xs = jnp.asarray(np.array(space, dtype=float))
    J = dense.jitted(lambda w: model.apply({**v0, "params": w}, xs), init)(init)
    psi = np.exp(np.asarray(model.apply(v0, xs), dtype=complex))
    cplx = p["model"] in ("qGPS", "two")
    P = J.shape[1]
    out_real = p["model"] == "qGPS/real"
    mode = p["mode"] or ("real" if out_real else "complex")

    def sample(seq):
        Q[:] = list(seq)
        vs.reset()
        if uniq:
            s, w = vs.samples_with_counts
            got = {}
            for c, x in zip(np.asarray(s).reshape(-1, 2), np.asarray(w)):
                got[tuple(int(v) for v in c)] = got.get(tuple(int(v) for v in c), 0.0) + x
            for c in space:
                ctx.close(got.get(c, 0.0), seq.count(c) / len(seq), "relative count of a configuration", sequence=seq, configuration=c)
        else:
            s = np.asarray(vs.samples).reshape(-1, 2)
            ctx.require([tuple(int(v) for v in c) for c in s] == list(seq), "scripted samples", sequence=seq)
        return np.array([seq.count(c) / len(seq) for c in space])

    def tree(vec):
        return jax.tree_util.tree_map(jnp.asarray, dense.unravel(vec, init))

    def rvec(seed, kind="real"):
        return generic((P,), seed, kind)

    sets = list(itertools.product(space, repeat=n))
    if p["kind"] in ("rms", "rms-unique", "rms-full", "rms-onthefly"):
        if p["kind"] == "rms-full":
            sets = [None]
        for k, seq in enumerate(sets):
            w = np.abs(psi) ** 2 / np.sum(np.abs(psi) ** 2) if seq is None else sample(seq)
            S = tensor(J, w, mode)
            for shift, eps in ((0.2, 1e-3), (0.0, 0.1), (1.0, 0.5)) if k % 5 == 0 or p["T"] else ((0.2, 1e-3),):
                ema = np.abs(rvec(40 + k)) ** 2
                kw = {} if p["mode"] is None else dict(mode=p["mode"])
                note = dict(samples=seq, shift=shift, eps=eps, model=p["model"], mode=mode)
                if p["kind"] == "rms-onthefly":
                    q = QGTOnTheFlyRMSProp(vs, tree(ema), diag_shift=shift, eps=eps)
                else:
                    q = QGTJacobianDenseRMSProp(vs, tree(ema), diag_shift=shift, eps=eps, **kw)
                want = (1 - shift) * S + shift * np.diag(np.sqrt(ema) + eps)
                ctx.close(q.to_dense(), want, "regularised tensor", rtol=1e-7, atol=1e-9, **note)
                v = rvec(7 + k)
                ctx.close(dense.real_vector(q @ tree(v)), want @ v, "product with a tree", rtol=1e-7, atol=1e-9, **note)
                if not cplx:
                    ctx.close(q @ jnp.asarray(v), want @ v, "product with a vector", rtol=1e-7, atol=1e-9, **note)
                if shift > 0:
                    x, _ = q.solve(CG, tree(v))
                    ctx.close(want @ dense.real_vector(x), v, "solution of the linear system", rtol=1e-6, atol=1e-6, **note)
                ctx.trans()
            ctx.state(seq)
            ctx.trace()
    elif p["kind"] == "rms-holomorphic":
        for k, seq in enumerate(sets):
            w = sample(seq)
            O = J[:, :P // 2] - w @ J[:, :P // 2]
            S = (O.conj().T * w) @ O
            ema = np.abs(generic((P // 2,), 40 + k, "real")) ** 2
            v = generic((P // 2,), 7 + k, "real") + 1j * generic((P // 2,), 8 + k, "real")
            for shift, eps in ((0.2, 1e-3), (0.0, 0.1), (1.0, 0.5)):
                note = dict(samples=seq, shift=shift, eps=eps, model=p["model"])
                q = QGTOnTheFlyRMSProp(vs, tree(np.concatenate([ema, 0 * ema])), diag_shift=shift, eps=eps, holomorphic=True)
                want = (1 - shift) * S + shift * np.diag(np.sqrt(ema) + eps)
                ctx.close(q.to_dense(), want, "regularised tensor", rtol=1e-7, atol=1e-9, **note)
                ctx.close(q @ jnp.asarray(v), want @ v, "product with a vector", rtol=1e-7, atol=1e-9, **note)
                y = dense.real_vector(q @ tree(np.concatenate([v.real, v.imag])))
                ctx.close(y[:P // 2] + 1j * y[P // 2:], want @ v, "product with a tree", rtol=1e-7, atol=1e-9, **note)
                ctx.trans()
            ctx.state(seq)
            ctx.trace()
    elif p["kind"] == "unique":
        for k, seq in enumerate(sets):
            w = sample(seq)
            for shift in (0.0, 0.3):
                kw = dict(holomorphic=True) if cplx else {} if p["mode"] is None else dict(mode=p["mode"])
                q = QGTJacobianDenseUniqueSamples(**kw)(vs, diag_shift=shift) if k % 2 else QGTJacobianDenseUniqueSamples(vs, diag_shift=shift, **kw)
                D = np.asarray(q.to_dense())
                if cplx:
                    O = J[:, :P // 2] - w @ J[:, :P // 2]
                    want = (O.conj().T * w) @ O
                else:
                    want = tensor(J, w, mode)
                want = want + shift * np.eye(len(want))
                ctx.close(D, want, "weighted tensor", rtol=1e-7, atol=1e-9, samples=seq, shift=shift, model=p["model"], mode=mode)
                ctx.trans()
            ctx.state(seq)
            ctx.trace()
    elif p["kind"] == "srdense":
        for k, seq in enumerate(sets):
            w = sample(seq)
            kw = dict(holomorphic=True) if cplx else {}
            for shift in (0.0, 0.1):
                if p["which"] == "unique":
                    qgt = lambda v: QGTJacobianDenseUniqueSamples(v, diag_shift=shift, **kw)
                else:
                    qgt = lambda v: nk.optimizer.qgt.QGTJacobianDense(v, diag_shift=shift, **kw)
                g = tree(rvec(60 + k))
                gv = np.asarray(nk.jax.tree_ravel(g)[0])
                if cplx:
                    O = J[:, :P // 2] - w @ J[:, :P // 2]
                    S = (O.conj().T * w) @ O
                else:
                    S = tensor(J, w, mode)
                S = S + shift * np.eye(len(S))
                ev = np.linalg.eigvalsh(S)
                if any(1e-14 < abs(x) / max(abs(ev).max(), 1e-300) < 1e-9 for x in ev) or abs(ev).max() < 1e-9:
                    continue  # the cutoff of the pseudo-inverse would decide
                x = SRDense(qgt)(vs, g, 0)
                ctx.close(nk.jax.tree_ravel(x)[0], np.linalg.pinv(S, rcond=1e-12, hermitian=True) @ gv, "natural gradient", rtol=1e-5, atol=1e-7, samples=seq, shift=shift, model=p["model"])
                ctx.trans()
            ctx.state(seq)
            ctx.trace()
    else:
        o = dict(decay=0.9, shift=0.1, eps=1e-3, scale=0.0)
        o.update(p["o"])
        some = [sets[k] for k in (1, 3, 6, 9, 14)]
        hist = list(itertools.product(sets if o.get("decay") == 0.5 else some, repeat=2))[::1 if p["qgt"] == "dense" else 4]
        hist += list(itertools.product(some, repeat=3))[::1 if p["qgt"] == "dense" else 6]
        if p["T"]:
            hist = list(itertools.product(sets, repeat=3))[::3]
        hist += [tuple(sets[(k * j + 3) % len(sets)] for j in range(10)) for k in (5, 7)]  # long ones
        for h in hist:
            qgt = QGTJacobianDenseRMSProp if p["qgt"] == "dense" else QGTOnTheFlyRMSProp
            pre = SRRMSProp(init, qgt, solver=CG, diag_shift=schedule if o["shift"] == "schedule" else o["shift"], decay=o["decay"], eps=o["eps"], initial_scale=o["scale"])
            ema = np.zeros(P)
            ema[:P // 2 if cplx else P] = o["scale"]
            for t, seq in enumerate(h):
                w = sample(seq)
                g = rvec(80 + 5 * t + sets.index(seq))
                ema = o["decay"] * ema + (1 - o["decay"]) * g ** 2
                hat = ema / (1 - o["decay"] ** (t + 1))
                lam = schedule(t) if o["shift"] == "schedule" else o["shift"]
                want = (1 - lam) * tensor(J, w, mode) + lam * np.diag(np.sqrt(hat) + o["eps"])
                x = dense.real_vector(pre(vs, tree(g), t))
                ctx.close(want @ x, g, "preconditioned gradient", rtol=1e-6, atol=1e-6, history=h, step=t, options=o, model=p["model"], tensor=p["qgt"])
                ctx.trans()
            ctx.state(h)
            ctx.trace()
    ctx.sample(kind=p["kind"], model=p["model"], mode=mode, parameters=int(P))
