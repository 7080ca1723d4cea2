"""C13: the stochastic reconfiguration driver with RMSProp regularisation follows its update rule through every history."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is a sequence of sample sets seen by the driver, at which the parameters, the moving average's effect and the energy were compared with the reference recursion; "
        "a transition is one optimisation step of the real driver; a trace is one complete history of steps from the same initial parameters")
BOUNDS = dict(
    quick="every sequence of two sample sets of two samples of two spins (256 histories, for two of the option sets) and every sequence of three out of five sets, per combination of model (complex, "
          "real, real with complex amplitude, with fewer parameters than samples) and options (decay, shift constant and scheduled, eps, initial scale, Jacobian mode, chunks); two histories of ten steps; every set of four samples on two chains; three steps on a fermionic model",
    thorough="as quick, sequences of three sets out of 16 and four out of five",
)
ASSUMPTIONS = ["the linear solver is exact (numpy-like solve) unless stated; the default solver is compared through its residual",
               "energies, Jacobian and moving average may all be rescaled by the number of samples (the code multiplies by N where the paper divides, which only rescales eps and "
               "initial_scale); the choice has to be the same in a whole history"]


def cases(tier):
    T = tier == "thorough"
    out = []
    opts = [
        dict(),
        dict(decay=0.5, shift=0.3, eps=1e-3),
        dict(decay=0.0, shift=0.05, eps=1e-2),
        dict(decay=0.9, shift="schedule", eps=1e-3),
        dict(decay=0.9, shift=0.2, eps=0.7),
        dict(decay=0.8, shift=0.2, eps=1e-3, scale=0.4),
    ]
    for model in ("qGPS", "qGPS/real", "phase"):
        for mode in ((None, "complex") if model == "qGPS" else (None,) if model == "qGPS/real" else (None, "real")):
            for k, o in enumerate(opts):
                if k in (2, 4) and mode is not None:
                    continue
                out.append(("%s/%s/%d" % (model, mode, k), dict(kind="two", model=model, mode=mode, o=o, T=T)))
    for model in ("qGPS", "qGPS/real", "phase"):
        for chunk in (None, 1, 2, 4):
            out.append(("%s/two chains/chunk%s" % (model, chunk), dict(kind="chains", model=model, mode=None, o=opts[1], chunk=chunk, T=T or chunk == 2)))
        out.append(("%s/default solver" % model, dict(kind="solver", model=model, mode=None, o=opts[1], T=T)))
    for model in ("few/1/complex", "few/1/real", "few/2/complex", "few/2/real"):
        out.append((model, dict(kind="two", model=model, mode=None, o=opts[1], T=T)))
        out.append((model + "/two chains", dict(kind="chains", model=model, mode=None, o=opts[1], chunk=None, T=T)))
    for model in ("qGPS", "Slater/unrestricted"):
        out.append(("fermions/%s" % model, dict(kind="fermions", model=model, mode=None, o=opts[1], T=T)))
    return out


def exact(A, b):
    return jnp.linalg.solve(A, b)


def schedule(step):
    return 0.4 / (1.0 + step)


def step_reference(J, E, x, ema, t, o, mode, N2):
    """one step of the recursion; N2 rescales energies and derivatives"""
    N = len(E)
    e = E - E.mean()
    O = J - J.mean(axis=0)
    if mode == "real":
        R, b = O.real, e.real
    else:
        R, b = np.concatenate([O.real, O.imag]), np.concatenate([e.real, e.imag])
    g = 2 * R.T @ b / N * N2
    S = R.T @ R / N * N2
    ema = o["decay"] * ema + (1 - o["decay"]) * g ** 2
    hat = ema / (1 - o["decay"] ** (t + 1))
    lam = schedule(t) if o["shift"] == "schedule" else o["shift"]
    A = S + lam * np.diag(np.sqrt(hat) + o["eps"])
    return np.linalg.solve(A, g), ema, A, g


def run(p, ctx):
    from mc import dense, scripted, zoo
    from GPSKet.driver import VMC_SRRMSProp

    Q, R = scripted.QUEUE, scripted.RANDOM
    o = dict(decay=0.9, shift=0.1, eps=1e-3, scale=0.0)
    o.update(p["o"])
    lr = 0.1
    if p["kind"] == "fermions":
        e = zoo.fermion_entry(p["model"], 2, (1, 1))
        hi, space = e.hi, e.space
        H = gham.FermiHubbardOnTheFly(hi, [(0, 1)], U=3.0, t=1.0)
        D = dense.dense_op(gham.FermiHubbard(hi, [(0, 1)], U=3.0, t=1.0), space)
        sa = scripted.make(hi, n_chains=1, sweep_size=1, dtype=np.uint8)
        model, v0 = e.model, e.variables(0)
    else:
        hi = scripted.ScriptedSpin(0.5, N=2)
        space = ref.spins(2)
        H = nk.operator.LocalOperator(hi, operators=[np.array([[0.5, 0.2j, 0.3, 0.1], [-0.2j, -0.7, 1.1 - 0.3j, 0.6], [0.3, 1.1 + 0.3j, 0.2, 0.4j], [0.1, 0.6, -0.4j, 0.9]])],
                                      acting_on=[[0, 1]], dtype=complex)
        D = dense.dense_op(H, space)
        sa = scripted.make(hi, n_chains=2 if p["kind"] == "chains" else 1, sweep_size=1)
        if p["model"] == "phase" or p["model"].startswith("few"):
            model = dense.Phase() if p["model"] == "phase" else dense.few(p["model"])
            from mc.core import fill
            v0 = fill(model.init(jax.random.PRNGKey(0), jnp.zeros((1, 2))), 3)
        else:
            e = zoo.spin_entry(p["model"], 2)
            model, v0 = e.model.clone(hilbert=hi), e.variables(0)
    n = 4 if p["kind"] == "chains" else (3 if p["kind"] == "fermions" else 2)
    R[:] = [space[0]] * 50
    Q[:] = [space[0]] * 50
    vs = nk.vqs.MCState(sa, model, n_samples=n, n_discard_per_chain=0, chunk_size=p.get("chunk"), seed=0)
    xs = jnp.asarray(np.array(space, dtype=sa.dtype))
    init = v0["params"]
    mode = p["mode"] or ("real" if p["model"].endswith("/real") else "complex")
    fwd = jax.jit(lambda q: model.apply({**v0, "params": q}, xs))
    jac = dense.jitted(lambda w: model.apply({**v0, "params": w}, xs), init)

    sets = list(itertools.product(space, repeat=n))
    some = [sets[k] for k in (1, 3, 6, 9, 14)]
    if p["kind"] == "chains":
        histories = [(s,) for s in (sets if p["T"] else sets[1::3])] + [(s, s2) for s in sets[17::53] for s2 in sets[29::61]]
    elif p["kind"] == "two":
        histories = list(itertools.product(some, repeat=3))
        if p["o"].get("shift") in (0.3, "schedule"):
            histories += list(itertools.product(sets, repeat=2))
        else:
            histories += [(s,) for s in sets]
        if p["T"]:
            histories += list(itertools.product(sets, repeat=3)) + list(itertools.product(some, repeat=4))
    else:
        histories = [(s,) for s in sets] + [(s, s2, s3) for s in sets[::11] for s2 in sets[5::13] for s3 in sets[7::17]]
    if p["kind"] == "two":
        histories += [tuple(sets[(k * j + 3) % len(sets)] for j in range(10)) for k in (5, 7)]  # long ones
    memo = {}  # reference states by history

    def reference(h):
        """parameters and moving average for both scales after a history"""
        if h not in memo:
            if not h:
                P = dense.real_vector(init).size
                memo[h] = [(dense.real_vector(init), np.full(P, o["scale"])) for _ in range(2)]
            else:
                out = []
                for k, (x, ema) in enumerate(reference(h[:-1])):
                    kx = ("jac", np.round(x, 12).tobytes())
                    if kx not in memo:
                        q = jax.tree_util.tree_map(jnp.asarray, dense.unravel(x, init))
                        psi = np.exp(np.asarray(fwd(q), dtype=complex))
                        memo[kx] = ((D @ psi) / psi, jac(q))
                    E, J = memo[kx]
                    i = [space.index(c) for c in h[-1]]
                    d, ema, _, _ = step_reference(J[i], E[i], x, ema, len(h) - 1, o, mode, 1 if k == 0 else n * n)
                    out.append((x - lr * d, ema))
                memo[h] = out
        return memo[h]

    scale = None
    for h in histories:
        Q[:] = [space[0]] * 50
        R[:] = [space[0]] * 50
        vs.parameters = init
        vs.reset()
        kw = {} if p["kind"] == "solver" else dict(linear_solver_fn=exact)
        if p["o"]:
            kw.update(decay=o["decay"], eps=o["eps"], diag_shift=schedule if o["shift"] == "schedule" else o["shift"], initial_scale=o["scale"])
        else:  # defaults
            kw.update(diag_shift=o["shift"])
            o["eps"] = 1e-8
        dr = VMC_SRRMSProp(H, nk.optimizer.Sgd(lr), variational_state=vs, jacobian_mode=p["mode"], **kw)
        emas = [np.full(dense.real_vector(init).size, o["scale"]) for _ in range(2)]
        for k, s in enumerate(h):
            x0 = vs.parameters
            Q[:] = list(s)
            dr.advance(1)
            note = dict(model=p["model"], options=o, mode=mode, history=h[:k + 1])
            cur = dense.real_vector(vs.parameters)
            before, want = reference(h[:k]), reference(h[:k + 1])
            psi = np.exp(np.asarray(fwd(x0), dtype=complex))
            E = ((D @ psi) / psi)[[space.index(c) for c in s]]
            ctx.close(complex(dr.energy.mean), E.mean(), "energy", rtol=1e-6, atol=1e-7, **note)
            ok = [bool(np.allclose(cur, w[0], rtol=1e-6, atol=1e-8)) for w in want]
            if p["kind"] == "solver":
                # the default solver works to a relative residual of 1e-5
                psi = np.exp(np.asarray(fwd(x0), dtype=complex))
                Jx = jac(x0)[[space.index(c) for c in s]]
                ok = []
                for j in range(2):
                    _, emas[j], A, g = step_reference(Jx, E, None, emas[j], k, o, mode, 1 if j == 0 else n * n)
                    d = (dense.real_vector(x0) - cur) / lr
                    ok.append(bool(np.linalg.norm(A @ d - g) <= 1e-4 * np.linalg.norm(g) + 1e-10))
            if scale is None and ok[0] != ok[1]:
                scale = ok.index(True)
            good = any(ok) if scale is None else ok[scale]
            i = scale or 0
            ctx.require(good, "parameters after an optimisation step", got=cur, expected=want[i][0], **note)
            ctx.trans()
            ctx.state(h[:k + 1])
        ctx.trace()
        ctx.outcome(np.round(cur, 8).tobytes())
    ctx.sample(model=p["model"], options=o, mode=mode, histories=len(histories))
