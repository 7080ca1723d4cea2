"""C20: imaginary-time steps of a variational state through every history of steps, parameter changes and evaluations."""
import itertools

import numpy as np

from mc import ref
from mc.core import fill
from mc.heavy import *

RULE = ("a state is a history of operations, after which the amplitudes of all configurations were compared with the product of matrices (1 - tau H) acting on the "
        "amplitudes of the model; a transition is one operation on the real states; a trace is one complete history")
BOUNDS = dict(
    quick="J1-J2 chain of 4: every sequence of three operations out of five (steps with two Hamiltonians and propagation times, new parameters, new samples, local energies) that starts with a step, for a table "
          "wavefunction, a quarter of them for each of eleven other kinds; "
          "Hubbard, ab initio dense and sparse: histories of one and two steps with changes of parameters before, between and after; qGPS, determinant and table wavefunctions, cached updates on/off, chunk sizes none and 2",
    thorough="as quick with sequences of four operations for J1-J2, two steps for all systems and models",
)
ASSUMPTIONS = ["Hamiltonians with on-the-fly local energies (as documented)", "1 - tau E is positive for real wavefunctions", "samplers without cached updates", "non-zero amplitudes"]

OPS = ["step A 0.1", "step B 0.07", "params", "samples", "energy"]
CHAINS = [["step A 0.1", "params", "step B 0.07"], ["step B 0.07", "step A 0.03", "params"], ["params", "step A 0.1", "step A 0.05"], ["step B 0.1", "params", "step A 0.05", "params"]]
SHORT = ["step A 0.1", "params", "samples", "params"], ["params", "step B 0.07", "params", "samples"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for model in ("table", "gps", "real"):
        for fast in (False, True):
            for chunk in (None, 2):
                hist = [h for h in itertools.product(OPS, repeat=4 if T else 3) if h[0].startswith("step")]
                keep = []
                for h in hist:
                    n, bad = 0, False
                    for o in h:
                        n += o.startswith("step")
                        bad |= n > 1 and o in ("samples", "energy") and (n > 2 or not T)
                        bad |= n > 3
                    if not bad and not (n == 1 and h[-1] == "energy" and "energy" in h[:-1]):
                        keep.append(h)
                combo = ("table", "gps", "real").index(model) * 4 + 2 * fast + (chunk is None)
                if combo != 1 and not T:
                    keep = [h for h in keep if sum(o.startswith("step") for o in h) < 3][combo % 4::4]
                parts = 12 if T or combo == 1 else 1
                for part in range(parts):
                    out.append(("j1j2/%s/%s/%s/%d" % (model, "fast" if fast else "plain", chunk, part), dict(sys="j1j2", model=model, fast=fast, chunk=chunk, hist=keep[part::parts])))
    k = 0
    for sysm in ("hubbard", "abinitio", "sparse"):
        for model in ("table", "gps", "slater", "real"):
            for fast in (False, True):
                for chunk in (None, 2):
                    if not T and model in ("slater", "real") and (chunk is None) == fast:
                        continue
                    k += 1
                    hist = [SHORT[k % 2]]
                    out.append(("%s/%s/%s/%s" % (sysm, model, "fast" if fast else "plain", chunk), dict(sys=sysm, model=model, fast=fast, chunk=chunk, hist=hist)))
                    if not T and sysm != "hubbard" and model != "table":
                        hist[0] = [o for o in hist[0] if o != "samples"]
                    if T or model == "table" and (sysm == "hubbard" or (fast, chunk) == dict(abinitio=(True, None), sparse=(False, None))[sysm]):
                        for j in range(4):
                            if T or j == k % 4:
                                out.insert(0, ("%s/%s/%s/%s/nested%d" % (sysm, model, "fast" if fast else "plain", chunk, j), dict(sys=sysm, model=model, fast=fast, chunk=chunk, hist=[CHAINS[j]])))
    return out


def system(name):
    """[(operator, dense matrix)], space"""
    if name == "j1j2":
        a = gham.get_J1_J2_Hamiltonian(4, J1=1.0, J2=0.4, sign_rule=False, on_the_fly_en=True)
        b = gham.get_J1_J2_Hamiltonian(4, J1=0.5, J2=-0.3, sign_rule=False, on_the_fly_en=True, pbc=False)
        from mc import spinref

        sp, Ha = spinref.j1j2(Lx=4, J1=1.0, J2=0.4, sign_rule=False)
        _, Hb = spinref.j1j2(Lx=4, J1=0.5, J2=-0.3, sign_rule=False, pbc=False)
        return a.hilbert, [(a, Ha), (b, Hb)], [tuple(c) for c in sp]
    L, n = 3, (2, 1)
    hi = FermionicDiscreteHilbert(L, n_elec=n)
    space = [tuple(int(v) for v in c) for c in ref.sector(L, n)]
    h, eri = ref.generic_integrals(L, 4)
    e, t = [(0, 1), (1, 2), (2, 0)], [0.9, 0.5, 0.7]
    hub = gham.FermiHubbardOnTheFly(hi, e, U=1.7, t=t), ref.restrict(ref.hubbard(L, e, t, 1.7), L, space)
    mat = ref.rows_to_matrix([ref.abinitio_row(c, h, eri) for c in space], space)
    if name == "hubbard":
        e2, t2 = [(0, 2)], [1.3]
        return hi, [hub, (gham.FermiHubbardOnTheFly(hi, e2, U=-0.6, t=t2), ref.restrict(ref.hubbard(L, e2, t2, -0.6), L, space))], space
    cls = gham.AbInitioHamiltonianOnTheFly if name == "abinitio" else gham.AbInitioHamiltonianSparse
    return hi, [(cls(hi, h, eri), mat), hub], space


def run(p, ctx):
    from GPSKet.supervised.imag_time_step import ImagTimeStep, get_imag_time_step_vstate
    from mc import tables

    hi, ops, space = system(p["sys"])
    X = np.array(space, dtype=np.float64 if p["sys"] == "j1j2" else np.uint8)
    X = np.resize(X, (-(-len(X) // 2) * 2, X.shape[1]))
    space_n = len(space)  # the rest repeats the first ones
    dt = jnp.float64 if p["model"] == "real" else jnp.complex128
    if p["model"] in ("table", "real"):
        m = (tables.FastTable if p["fast"] else tables.Table)(hi, dtype=dt)
    elif p["model"] == "gps":
        m = gmod.qGPS(hi, 2, dtype=dt, apply_fast_update=p["fast"])
    else:
        m = gmod.Slater(hi, dtype=dt, apply_fast_update=p["fast"])
    if p["sys"] == "j1j2":
        sa = nk.sampler.MetropolisExchange(hi, graph=ops[0][0].graph, n_chains=2)
    else:
        sa = GPSKet.sampler.MetropolisHopping(hi, n_chains=2)
    vs0 = nk.vqs.MCState(sa, m, n_samples=8, n_discard_per_chain=0, chunk_size=p["chunk"], seed=1, sampler_seed=2)

    # tables of amplitudes outside of the floating-point range: only their logarithms can be represented
    off = (900.0 if p["fast"] else -900.0) if p["model"] in ("table", "real") else 0.0

    def pars(k):
        q = flax.core.unfreeze(vs0.parameters)
        return {kk: v + off for kk, v in fill(q, 10 + k, lo=0.2, hi=0.8).items()}

    scale = 1.0 / max(np.abs(np.linalg.eigvalsh(H)).max() for _, H in ops) if p["model"] == "real" else 1.0
    hist = p["hist"]
    base = {}
    apply0 = vs0._apply_fun

    @jax.jit
    def amp(q):
        return apply0({"params": q}, jnp.asarray(X))

    def psi_of(k):
        if k not in base:
            base[k] = np.exp(np.asarray(amp(pars(k)), dtype=complex) - off)[:space_n]
        return base[k]

    for h in hist:
        vs = vs0
        vs0.parameters = pars(0)
        vs0._samples = None
        k, k0, chain = 0, 0, []
        note = dict(system=p["sys"], model=p["model"], fast=p["fast"], chunk=p["chunk"], history=h)

        def want():
            v = psi_of(k).copy()
            for H, tau in chain:
                v = v - tau * (H @ v)
            return v

        for op in h:
            what = op.split()
            if what[0] == "step":
                o, H = ops[0 if what[1] == "A" else 1]
                tau = float(what[2]) * scale
                before = [np.asarray(l).copy() for l in jax.tree_util.tree_leaves(vs.variables)]
                smp = None if vs._samples is None else np.asarray(vs._samples).copy()
                stepped = np.asarray(ImagTimeStep(vs, o).log_imag_time_step(tau, jnp.asarray(X)))[:space_n] if not chain or p["sys"] == "j1j2" and len(chain) < 2 else None
                if stepped is not None:
                    v = want()
                    ctx.close(np.exp(stepped - off), v - tau * (H @ v), "amplitudes of ImagTimeStep", rtol=1e-6, atol=1e-8, tau=tau, **note)
                    ctx.require(smp is None or np.array_equal(vs._samples, smp), "an imaginary-time step leaves the samples of the state alone", **note)
                if vs._samples is None:
                    vs._samples = jnp.asarray(X.reshape(2, -1, X.shape[1]))
                new = get_imag_time_step_vstate(tau, o, vs)
                after = jax.tree_util.tree_leaves(vs.variables)
                ctx.require(all(np.array_equal(a, b) for a, b in zip(before, after)), "the original state is left alone", **note)
                vs = new
                chain.append((H, tau))
            elif what[0] == "params":
                k += 1
                k0 = k if vs is vs0 else k0
                vs.parameters = pars(k)
                if vs is not vs0:
                    ctx.require(all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(vs0.parameters), jax.tree_util.tree_leaves(pars(k0)))),
                                "new parameters of the evolved state leave the original alone", **note)
            elif what[0] == "samples":
                vs.reset()
                s = np.asarray(vs.samples).reshape(-1, X.shape[1])
                ok = {tuple(int(v) for v in c) for c in space}
                ctx.require(all(tuple(int(v) for v in c) in ok for c in s), "samples of an evolved state", **note)
            else:
                vs._samples = jnp.asarray(X.reshape(2, -1, X.shape[1]))
                got = np.asarray(vs.local_estimators(ops[0][0])).reshape(-1)
                v = want()
                ctx.close(got[:space_n], (ops[0][1] @ v) / v, "local energies of the evolved state", rtol=1e-5, atol=1e-6, **note)
            ctx.trans()
            if chain and what[0] in ("step", "params"):
                now = np.exp(np.asarray(vs.log_value(jnp.asarray(X)), dtype=complex) - off)[:space_n]
                ctx.close(now, want(), "amplitudes of the evolved state", rtol=1e-6, atol=1e-8, after=op, **note)
        got = np.exp(np.asarray(vs.log_value(jnp.asarray(X)), dtype=complex) - off)[:space_n]
        ctx.close(got, want(), "amplitudes after the history", rtol=1e-6, atol=1e-8, **note)
        ctx.state(h)
        ctx.trace()
    ctx.sample(system=p["sys"], model=p["model"], histories=len(hist))
