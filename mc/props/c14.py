"""C14: minSR steps are the minimum-norm stochastic reconfiguration updates of the samples."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is a (weighted) sample set at given parameters at which the real driver's update and energy statistics were compared with the dense minimum-norm least-squares solution; "
        "a transition is one optimisation step; a trace is one complete history of steps from the same initial parameters")
BOUNDS = dict(
    quick="every sequence of three samples of two spins, of four samples on two chains (every seventh for the remaining mode and chunk combinations), every sequence of two sets out of four, for complex (holomorphic and complex "
          "mode), real and real-with-complex-amplitude models and models with one or two parameters (fewer than samples), every admissible chunk size; every weighted set of up to three distinct configurations of unique-sample states; every set of three electron configurations",
    thorough="as quick with every sequence of four samples for every combination and of two out of 16 sets",
)
ASSUMPTIONS = ["singular values of the kernel matrix below 1e-12 of the largest one count as zero", "the samples do not all coincide (there the kernel matrix vanishes)", "for real parameters the update is the real part of the minimum-norm solution"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for model, modes in (("qGPS", ("holomorphic", "complex", "flag")), ("qGPS/real", (None, "real")), ("phase", (None, "complex")),
                         ("few/1/complex", ("holomorphic", "complex")), ("few/2/complex", ("flag",)), ("few/1/real", (None,)), ("few/2/real", ("real",))):
        small = model.startswith("few")
        for mode in modes:
            for chains, n in ((1, 3), (2, 4)):
                for chunk in (None, 1) if small else [None] + [c for c in (1, 2, 3, 4) if n % c == 0]:
                    every = 1 if T or (n == 3 and chunk != 3) or (mode == modes[0] and chunk == 2) else 7
                    out.append(("%s/%s/%d chains/chunk%s" % (model, mode, chains, chunk), dict(kind="plain", model=model, mode=mode, chains=chains, n=n, chunk=chunk, T=T, every=every, skip=len(out) % every)))
        for chunk in (None,) if small else (None, 1, 3):
            out.append(("unique/%s/chunk%s" % (model, chunk), dict(kind="unique", model=model, mode=modes[0], chunk=chunk, T=T, every=1 if T or chunk is None else 5)))
    for model in ("qGPS", "Slater/unrestricted", "qGPS/real"):
        out.append(("fermions/%s" % model, dict(kind="fermions", model=model, mode=None, chunk=None, T=T)))
    return out


def reference(J, E, w, cplx, holomorphic):
    """minimum-norm least-squares solution; J in the real representation"""
    P = J.shape[1]
    mean = np.sum(w * E)
    if cplx and holomorphic:
        J = J[:, :P // 2]
    A = np.sqrt(w)[:, None] * (J - np.sum(w[:, None] * J, axis=0))
    b = np.sqrt(w) * (E - mean)
    U, s, V = np.linalg.svd(A, full_matrices=False)
    keep = s > 1e-6 * (s[0] if s[0] > 1e-13 else 1)
    near = np.any((s > 1e-8 * s[0]) & (s < 1e-5 * s[0]))
    d = V[keep].conj().T @ ((U[:, keep].conj().T @ b) / s[keep])
    if cplx and holomorphic:
        d = np.concatenate([d.real, d.imag])
    elif cplx:
        d = None if d is None else combine(d)
    else:
        d = d.real
    return d, mean, np.sum(w * np.abs(E - mean) ** 2), near


def combine(d):
    """complex solutions for the real and the imaginary parts of the parameters are put together as x + i y"""
    P = len(d) // 2
    z = d[:P] + 1j * d[P:]
    return np.concatenate([z.real, z.imag])


def run(p, ctx):
    from mc import dense, scripted, zoo
    from mc.core import fill
    from GPSKet.driver import minSRVMC
    from GPSKet.vqs import MCStateUniqueSamples

    Q, R = scripted.QUEUE, scripted.RANDOM
    lr = 0.05
    chains = p.get("chains", 1)
    dt = np.float64
    if p["kind"] == "fermions":
        e = zoo.fermion_entry(p["model"], 2, (1, 1))
        hi, space = e.hi, e.space
        H = gham.FermiHubbardOnTheFly(hi, [(0, 1)], U=3.0, t=1.0)
        D = dense.dense_op(gham.FermiHubbard(hi, [(0, 1)], U=3.0, t=1.0), space)
        dt = np.uint8
        model, v0 = e.model, e.variables(0)
    else:
        hi = scripted.ScriptedSpin(0.5, N=2)
        space = ref.spins(2)
        H = nk.operator.LocalOperator(hi, operators=[np.array([[0.5, 0.2j, 0.3, 0.1], [-0.2j, -0.7, 1.1 - 0.3j, 0.6], [0.3, 1.1 + 0.3j, 0.2, 0.4j], [0.1, 0.6, -0.4j, 0.9]])],
                                      acting_on=[[0, 1]], dtype=complex)
        D = dense.dense_op(H, space)
        if p["model"] == "phase" or p["model"].startswith("few"):
            model = dense.Phase() if p["model"] == "phase" else dense.few(p["model"])
            v0 = fill(model.init(jax.random.PRNGKey(0), jnp.zeros((1, 2))), 3)
        else:
            e = zoo.spin_entry(p["model"], 2)
            model, v0 = e.model.clone(hilbert=hi), e.variables(0)
    sa = scripted.make(hi, n_chains=chains, sweep_size=1, dtype=dt)
    n = p.get("n", 3)
    R[:] = [space[0]] * 50
    Q[:] = [space[0]] * 50
    unique = p["kind"] == "unique"
    kw = dict(n_samples=n, n_discard_per_chain=0, chunk_size=p["chunk"], seed=0)
    vs = MCStateUniqueSamples(sa, model, batch_size=6, max_sampling_steps=1, **kw) if unique else nk.vqs.MCState(sa, model, **kw)
    xs = jnp.asarray(np.array(space, dtype=dt))
    init = v0["params"]
    vs.variables = v0
    cplx = any(jnp.iscomplexobj(l) for l in jax.tree_util.tree_leaves(init))
    fwd = jax.jit(lambda q: model.apply({**v0, "params": q}, xs))
    jac = dense.jitted(lambda q: model.apply({**v0, "params": q}, xs), init)
    kw = dict(holomorphic=True) if p["mode"] == "flag" else {} if p["mode"] is None else dict(mode=p["mode"])
    holomorphic = p["mode"] in ("flag", "holomorphic")
    if p["kind"] == "fermions" and cplx:
        kw, holomorphic = dict(mode="holomorphic"), True
    dr = minSRVMC(H, nk.optimizer.Sgd(lr), variational_state=vs, **kw)

    if unique:
        sets = []
        for base in [c for k in (1, 2, 3) for c in itertools.permutations(space, k)]:
            for mult in itertools.product((1, 2, 3), repeat=len(base) - 1):
                d = [c for c, m in zip(base, mult + (1,)) for _ in range(m)][:6]
                sets.append(tuple(d + [d[-1]] * (6 - len(d))))
        sets = list(dict.fromkeys(sets))
    else:
        sets = list(itertools.product(space, repeat=n))
    sets = [s for s in sets if len(set(s)) > 1]
    histories = [(s,) for s in (sets[p.get("skip", 0)::p.get("every", 1)])]
    some = sets[1::max(1, len(sets) // (16 if p["T"] else 4))]
    histories += list(itertools.product(some, repeat=2))

    for h in histories:
        vs.parameters = init
        for k, s in enumerate(h):
            x0 = vs.parameters
            vs.reset()
            Q[:] = list(s)
            dr.advance(1)
            counts = {}
            for c in s:
                if unique and len(counts) == n:
                    break
                counts[c] = counts.get(c, 0) + 1
            i = [space.index(c) for c in counts]
            w = np.array(list(counts.values()), dtype=float)
            w /= w.sum()
            psi = np.exp(np.asarray(fwd(x0), dtype=complex))
            E = (D @ psi) / psi
            J = jac(x0)[i]
            d, mean, var, near = reference(J, E[i], w, cplx, holomorphic)
            note = dict(model=p["model"], mode=p["mode"], history=h[:k + 1])
            ctx.close(complex(dr.energy.mean), mean, "energy", **note)
            ctx.close(float(np.real(dr.energy.variance)), var, "variance of the energy", **note)
            if not near:
                got = (dense.real_vector(x0) - dense.real_vector(vs.parameters)) / lr
                ctx.close(got, d, "update", rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(d))), **note)
            ctx.trans()
            ctx.state((h[:k + 1]))
        ctx.trace()
    ctx.sample(model=p["model"], mode=p["mode"], histories=len(histories))
