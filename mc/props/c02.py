"""C02: on-the-fly local energies are the exact local energies of the operator, for every wavefunction."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (operator, wavefunction, configuration) whose local energy was compared with (H psi)(x)/psi(x) for the "
        "explicit matrix H; a transition is one evaluated configuration under one choice of update path, chunk size and "
        "batch layout; a trace is one complete evaluation through the variational state")
BOUNDS = dict(
    quick="Hubbard over 2-4 and 8 orbitals, ab initio (dense and sparse) over 2-5 orbitals in every/most sectors, J1-J2 on chains of 3-8 "
          "and grids up to 3x3; couplings scaled by 1e-10, 1e10 and -1; tables of independent "
          "complex/real/partly vanishing amplitudes, also scaled by exp(900) and exp(-900), and the qGPS; cached updates "
          "on/off; no chunking and chunk sizes 1, 2, 3, 5, all; one and two chains",
    thorough="as quick with every sector of 4 orbitals, sectors of 5, further chains and grids",
)
ASSUMPTIONS = [
    "the amplitude of every sampled configuration is non-zero",
    "a table of independent amplitudes is the most general wavefunction",
]


def cases(tier):
    out = []
    T = tier == "thorough"
    edges = {2: [[(0, 1)], []], 3: [[(0, 1), (1, 2), (2, 0)], [(2, 0)], [(0, 2), (2, 0), (1, 2)]],
             4: [[(0, 1), (1, 2), (2, 3), (3, 0)], [(3, 0), (0, 2)]]}
    for L in edges:
        for k, e in enumerate(edges[L]):
            secs = [None] + list(itertools.product(range(L + 1), repeat=2))
            if L == 4 and not T:
                secs = [None, (2, 2), (1, 3), (4, 1)]
            if L == 3 and k > 0 and not T:
                secs = [None, (2, 1)]
            for s in secs:
                out.append(("hubbard/L%d/e%d/%s" % (L, k, s), dict(kind="hubbard", L=L, edges=e, n=s)))
    secs = {2: [(1, 1), (2, 1), (0, 1), (1, 2), (2, 2)],
            3: [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (0, 2), (2, 0), (3, 3)],
            4: [(2, 2), (1, 2), (3, 2), (2, 1)],
            5: [(3, 1), (1, 3)]}  # from here on a pair of electrons can move past a third one of the same spin
    if T:
        secs[4] = [s for s in itertools.product(range(5), repeat=2)]
        secs[5] += [(2, 3), (3, 3)]
    for L in secs:
        for s in secs[L]:
            for cls in ("AbInitioHamiltonianOnTheFly", "AbInitioHamiltonianSparse"):
                out.append(("%s/L%d/%s" % (cls, L, s), dict(kind=cls, L=L, n=s)))
    lat = [dict(Lx=3, total_sz=0.5, sign_rule=False), dict(Lx=4), dict(Lx=4, J2=0.6), dict(Lx=5, J2=0.6, total_sz=None, sign_rule=False),
           dict(Lx=6, J2=0.4, sign_rule=[True, False]), dict(Lx=4, sign_rule=False, J2=0.5, total_sz=1.0),
           dict(Lx=4, pbc=False, J1=0.7, J2=-0.4), dict(Lx=3, Ly=2, pbc=False, J2=0.5), dict(Lx=2, Ly=2, pbc=False, J2=0.3, total_sz=None),
           dict(Lx=8, J2=0.3), dict(Lx=3, Ly=3, J2=0.3, total_sz=2.5, sign_rule=False)]
    if T:
        lat += [dict(Lx=3, Ly=3, J2=0.3, total_sz=0.5, sign_rule=False), dict(Lx=2, Ly=4, pbc=False, J2=0.3), dict(Lx=7, J2=0.3, sign_rule=False, total_sz=1.5)]
    out.append(("hubbard/L8/(2, 1)", dict(kind="hubbard", L=8, edges=[(k, (k + 1) % 8) for k in range(8)] + [(0, 3), (6, 2)], n=(2, 1))))
    # couplings many orders of magnitude away from one: nothing may be neglected
    for s in (1e-10, 1e10, -1.0):
        out.append(("hubbard/scale%g" % s, dict(kind="hubbard", L=3, edges=[(0, 1), (1, 2)], n=(2, 1), scale=s)))
        out.append(("j1j2/scale%g" % s, dict(kind="j1j2", kw=dict(Lx=4, J2=0.6), scale=s)))
        for cls in ("AbInitioHamiltonianOnTheFly", "AbInitioHamiltonianSparse"):
            out.append(("%s/scale%g" % (cls, s), dict(kind=cls, L=3, n=(2, 1), scale=s)))
    for k, kw in enumerate(lat):
        out.append(("j1j2/%d" % k, dict(kind="j1j2", kw=kw)))
    for k, (_, p) in enumerate(out):  # which of the further variants this case runs in addition: all of them in turn
        p["extra"] = list(range(10)) if T or k % 17 == 5 else [k % 10, (k // 10 + k + 5) % 10]
    return sorted(out, key=lambda c: -(c[1].get("L", 0) + 3 * c[1]["kind"].startswith("Ab")))


def build(p):
    """(operator, basis, dense reference matrix)"""
    scale = p.get("scale", 1.0)
    if p["kind"] == "hubbard":
        L, n = p["L"], p["n"] and tuple(p["n"])
        e = [tuple(x) for x in p["edges"]]
        t = [0.6 + 0.3 * k for k in range(len(e))]
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        t, U = [scale * x for x in t], 1.9 * scale
        op = gham.FermiHubbardOnTheFly(hi, e, U=U, t=t)
        basis = ref.sector(L, n)
        H = ref.restrict(ref.hubbard(L, e, t, U), L, basis)
    elif p["kind"] == "j1j2":
        from mc import spinref

        kw = dict(p["kw"])
        if isinstance(kw.get("sign_rule"), list):
            kw["sign_rule"] = tuple(kw["sign_rule"])
        kw.update(J1=kw.get("J1", 1.0) * scale, J2=kw.get("J2", 0.0) * scale)
        op = gham.get_J1_J2_Hamiltonian(on_the_fly_en=True, **kw)
        basis, H = spinref.j1j2(**kw)
    else:
        L, n = p["L"], tuple(p["n"])
        h, eri = ref.generic_integrals(L, 3)
        # zeros, so that the sparse representation is really sparse and has empty rows
        if L > 2:
            h[0, L - 1] = h[L - 1, 0] = 0.0
            for _, u in ref.eri_classes(L)[::3]:
                eri = eri * (1 - u)
        h, eri = scale * h, scale * eri
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        op = getattr(gham, p["kind"])(hi, h, eri)
        basis = ref.sector(L, n)
        H = ref.rows_to_matrix([ref.abinitio_row(c, h, eri) for c in basis], basis)
    return op, basis, H


def run(p, ctx):
    from mc import tables

    op, basis, H = build(p)
    scale = p.get("scale", 1.0)
    H = H / scale
    hi = op.hilbert
    spin = p["kind"] == "j1j2"
    q, L = hi.local_size, hi.size
    X = np.asarray(basis, dtype=np.float64 if spin else np.uint8).reshape(-1, L)
    loc = (X.astype(int) + 1) // 2 if spin else X.astype(int)
    idx = np.array([tables.config_index(c, q) for c in loc])
    N = len(X)

    # every configuration, in an order which mixes them over chains and chunks, padded to a multiple of six
    order0 = np.argsort((np.arange(N) * 7919) % max(N, 1), kind="stable")

    def go(tag, model, variables, keep, fast, chunk, chains, expect=False):
        kept = order0[keep[order0]]
        n_tot = -(-N // 6) * 6
        order = np.resize(kept, n_tot)
        m = model(fast)
        vs = nk.vqs.MCState(nk.sampler.ExactSampler(hi, dtype=X.dtype), m, n_samples=n_tot,
                            chunk_size=n_tot if chunk == "all" else chunk, seed=1)
        vs.variables = variables
        lp = np.asarray(vs.log_value(X), dtype=complex)
        lp = lp - np.max(lp.real)  # local energies do not depend on the normalisation, however large or small
        psi = np.exp(np.where(np.isneginf(lp.real), -1e4, lp.real) + 1j * np.where(np.isneginf(lp.real), 0, lp.imag))
        eloc = (H @ psi) / np.where(keep, psi, 1.0)
        vs._samples = jnp.asarray(X[order].reshape(chains, -1, L))
        info = dict(model=tag, fast=fast, chunk=chunk, chains=chains)
        if expect:
            st = vs.expect(op)
            ctx.close(st.mean / scale, np.mean(eloc[order]), "mean energy", rtol=1e-6, atol=1e-7, **info)
            ctx.close(st.variance / scale**2, np.var(eloc[order]), "energy variance", rtol=1e-5, atol=1e-6, **info)
            st, grad = vs.expect_and_grad(op)
            ctx.close(st.mean / scale, np.mean(eloc[order]), "mean energy along with the gradient", rtol=1e-6, atol=1e-7, **info)
            # the derivative of log psi(x) with the entry of the table for x is one
            force = np.zeros(q**L, dtype=complex)
            np.add.at(force, idx[order], (eloc[order] - np.mean(eloc[order])) / n_tot)
            want = 2 * (force if np.iscomplexobj(variables["params"]["table"]) else force.real)  # NetKet's convention
            ctx.close(np.asarray(grad["table"]) / scale, want, "energy gradient", rtol=1e-6, atol=1e-7, **info)
        else:
            got = np.asarray(vs.local_estimators(op)).reshape(-1) / scale
            ctx.close(got, eloc[order], "local energies", rtol=1e-6, atol=1e-7, **info)
        ctx.trans(n_tot)
        ctx.trace()
        for k in kept:
            ctx.state((tag, int(k)))

    everything = np.ones(N, dtype=bool)
    models = {}
    for dt in (jnp.complex128, jnp.float64):
        for fast in (False, True):
            models[dt, fast] = (tables.FastTable if fast else tables.Table)(hi, dtype=dt)
    cplx = lambda fast: models[jnp.complex128, fast]
    real = lambda fast: models[jnp.float64, fast]
    gps = lambda fast: gmod.qGPS(hi, 2, dtype=jnp.complex128, apply_fast_update=fast)

    def var(tab):
        return {"params": {"table": jnp.asarray(tab)}}

    tab = var(tables.log_table(q**L, "complex", 1))
    for fast in (False, True):
        go("complex table", cplx, tab, everything, fast, None, 1)
        if N > 2:
            zeros = idx[1::3]
            # amplitudes far outside the range of floating-point numbers: only their logarithms can be represented
            shift = 900.0 if fast else -900.0
            go("table with zeros", cplx, var(shift + tables.log_table(q**L, "complex", 3, zeros)), ~np.isin(idx, zeros), fast, None, 1)
    rtab = var(tables.log_table(q**L, "real", 2) + (900.0 if p["extra"][0] % 2 else -900.0))
    from mc.core import fill

    gpsv = {"params": fill(flax.core.unfreeze(gps(True).init(jax.random.PRNGKey(0), jnp.asarray(X[:1])))["params"], 4)}
    extra = [
        ("complex table", cplx, tab, everything, True, 1, 1),
        ("complex table", cplx, tab, everything, False, 2, 2),
        ("real table", real, rtab, everything, True, None, 2),
        ("complex table", cplx, tab, everything, True, 3, 2, True),
        ("qGPS", gps, gpsv, everything, True, None, 1),
        ("real table", real, rtab, everything, False, 2, 1),
        ("complex table", cplx, tab, everything, False, 6, 1, True),
        ("complex table", cplx, tab, everything, True, "all", 1),
        ("qGPS", gps, gpsv, everything, False, None, 1),
        ("complex table", cplx, tab, everything, True, None, 2, True),
    ]
    for k in p["extra"]:
        go(*extra[k])
    ctx.sample(dim=N, kind=p["kind"])
