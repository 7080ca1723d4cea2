"""C19: local reduced density matrices and the spin correlations computed from them."""
import itertools
import os
import sys
from functools import partial

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (sector, wavefunction, configuration, update path) whose local density matrices were compared with those of explicit fermionic strings; a transition is one "
        "element of a density matrix (one independent class of integrals); a trace is one complete evaluation of a wavefunction")
BOUNDS = dict(
    quick="every sector of 2 and 3 orbitals with an electron of each kind or more, five sectors of 4; complex, real and vanishing amplitudes; cached updates on/off; chunk sizes none, 1, 2, all; "
          "all spin singlets among the eigenstates of generic Hamiltonians of 2-4 orbitals; the density matrices script after an optimisation of H2 (real, complex, without chunks, with a number of samples which the chains do not divide) and H4, two sequences of samples each; radial correlations of every pair of sites of the 6x6 sheet",
    thorough="as quick with every sector of 4 orbitals",
)
ASSUMPTIONS = ["the amplitude of every sampled configuration is non-zero", "integrals with eight-fold symmetry", "spin correlations are those of spin singlets with real amplitudes"]


def cases(tier):
    T = tier == "thorough"
    out = []
    secs = {2: list(itertools.product(range(3), repeat=2)), 3: list(itertools.product(range(4), repeat=2)), 4: [(2, 2), (1, 2), (3, 2), (2, 1), (1, 1)]}
    if T:
        secs[4] = list(itertools.product(range(5), repeat=2))
    for L in secs:
        for k, n in enumerate(secs[L]):
            if sum(n) == 0:
                continue
            paths = [(False, None), (True, None)]
            extra = [(True, 1), (False, "all"), (True, 2), (False, 1), (True, "all"), (False, 2)]
            paths += extra if T else [extra[k % 6]]
            for f, c in paths:
                out.append(("local/L%d/%s/%s/%s" % (L, n, "fast" if f else "plain", c), dict(kind="local", L=L, n=n, fast=f, chunk=c, T=T)))
    for L, n in [(2, (1, 1)), (3, (1, 1)), (3, (2, 2)), (4, (2, 2)), (4, (1, 1)), (4, (3, 3))]:
        out.append(("spin/L%d/%s" % (L, n), dict(kind="spin", L=L, n=n)))
    out.append(("radial", dict(kind="radial", L=0)))
    for name, L, n in [("rdm-h2", 4, (1, 1)), ("rdm-h4", 4, (2, 2)), ("rdm-h2/complex", 4, (1, 1)), ("rdm-h2/whole", 4, (1, 1)), ("rdm-h2/ragged", 4, (1, 1))]:
        out.append(("script/" + name, dict(kind="script", name=name, L=L, n=n, runs=3 if T else 2)))
    return sorted(out, key=lambda c: -c[1]["L"] - 9 * (c[1]["kind"] == "script"))


def run(p, ctx):
    dict(local=local, spin=spin, script=script, radial=radial)[p["kind"]](p, ctx)


def radial(p, ctx):
    """the radial correlations of the 6x6 sheet: those of the four central sites with all sites at distance 0, 1, sqrt(2) and 2, summed and
    divided by four; a linear function of the (symmetric) correlations, so every pair of sites alone decides"""
    from mc import experiments as E

    E.load("cpd_backflow")
    from cpd_backflow.corrfunc import radial_correlations

    xy = [(a // 6, a % 6) for a in range(36)]
    centre = [a for a in range(36) if xy[a][0] in (2, 3) and xy[a][1] in (2, 3)]
    for a in range(36):
        for b in range(a + 1):
            corr = np.zeros((36, 36))
            corr[a, b] = corr[b, a] = 1.0
            d2 = (xy[a][0] - xy[b][0]) ** 2 + (xy[a][1] - xy[b][1]) ** 2
            hits = (a in centre) + (b in centre and a != b)
            ctx.close(radial_correlations(corr), [hits / 4 * (d2 == k) for k in (0, 1, 2, 4)], "radial correlations", sites=(xy[a], xy[b]))
            ctx.state(("radial", a, b))
            ctx.trans()
    ctx.trace()


def script(p, ctx):
    """python -m cpd_backflow.rdms after an optimisation: the files it writes are averages over the samples, in the order of operators that
    the spin correlations are computed from"""
    from flax import serialization
    from mc import crash, experiments as E

    E.full_space()
    with crash.Scratch() as d:
        E.cache(os.path.join(os.path.dirname(d), "jit"))
        E.run("cpd_backflow", ["--workdir=" + d, "--config=%s/expconf/cpd.py:%s" % (os.path.dirname(E.__file__), p["name"])])
        with open(os.path.join(d, "best_params.mpack"), "rb") as f:
            best = serialization.msgpack_restore(f.read())["Parameters"]
        L, n = p["L"], tuple(p["n"])
        space = [tuple(int(v) for v in c) for c in ref.sector(L, n)]
        X = np.array(space, dtype=np.uint8)
        N = len(space)
        order = (np.arange(N) * 7) % N if N % 7 else np.arange(N)[::-1]
        draws = [("every configuration", order), ("repeated ones", order[np.arange(N) ** 2 % (N // 2 + 1)]), ("two alternating ones", order[(np.arange(N) * (np.arange(N) < N // 2)) % 2])]
        for what, sel in draws[:p["runs"]]:
            logs, sizes = [], []
            M = dict(whole=1, ragged=4).get(p["name"].split("/")[-1], 2)

            def seen(vs):
                for a, b in zip(jax.tree_util.tree_leaves(flax.core.unfreeze(vs.parameters)), jax.tree_util.tree_leaves(best)):
                    ctx.close(a, b, "the density matrices are those of the best parameters")
                sizes.append(vs.n_samples)
                logs.append(np.asarray(vs.log_value(jnp.asarray(X)), dtype=complex))

            undo = E.scripted_samples([X[s] for s in np.split(sel, M)], seen)
            try:
                E.run("cpd_backflow", ["--workdir=" + d], main="rdms")
            finally:
                undo()
            ctx.require(sizes == [N // M] * M, "numbers of samples drawn", drawn=sizes)
            psi = dict(zip(space, np.exp(logs[0] - np.max(logs[0].real))))
            keep = [c for c in (space[i] for i in sel) if abs(psi[c]) > 1e-10]
            ctx.require(len(keep) == N, "amplitudes of the prepared state vanish")
            rdm1, rdm2 = np.load(os.path.join(d, "rdm_1.npy")), np.load(os.path.join(d, "rdm_2.npy"))
            note = dict(experiment=p["name"], samples=what)
            want = np.zeros((L, L), complex)
            for c in keep:  # <c| a+ b |c2> psi(c2) / psi(c)
                for a, b in itertools.product(range(L), repeat=2):
                    for s in (0, 1):
                        r = ref.apply_string(c, [(b, s, True), (a, s, False)])
                        if r:
                            want[a, b] += r[0] * psi[r[1]] / psi[c] / N
            ctx.close(rdm1, want, "one-body density matrix of the script", rtol=1e-4, atol=1e-5, **note)
            got, exp = [], []
            for key, u in ref.eri_classes(L):
                got.append(0.5 * np.sum(u * rdm2))
                exp.append(sum(sum(v * psi[c2] for c2, v in ref.abinitio_row(c, np.zeros((L, L)), u).items()) / psi[c] for c in keep) / N)
            ctx.close(got, exp, "two-body density matrix of the script, per class of integrals", rtol=1e-4, atol=1e-4, **note)
            ctx.trans(L * L + len(got))
            ctx.state((p["name"], what))
            ctx.trace()
        ctx.sample(experiment=p["name"], configurations=N)


def table(L, space, logs):
    from mc import tables

    tab = np.full(4**L, -np.inf + 0j)
    for c, a in zip(space, logs):
        tab[tables.config_index(c, 4)] = a
    return tab


def evaluate(L, n, space, logs, fast, chunk, t, eri):
    from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly
    from mc import tables

    hi = FermionicDiscreteHilbert(L, n_elec=n)
    m = (tables.FastTable if fast else tables.Table)(hi, dtype=jnp.complex128)
    tab = table(L, space, logs)
    vs = nk.vqs.MCState(nk.sampler.ExactSampler(hi, dtype=np.uint8), m, n_samples=2, seed=1)
    vs.variables = {"params": {"table": jnp.asarray(tab)}}

    @partial(jax.jit, static_argnums=(2,))
    def f(X, args, rdm, variables):
        c = len(X) if chunk == "all" else chunk
        return local_en_on_the_fly(hi._n_elec, vs._apply_fun, variables, X, args, use_fast_update=fast, chunk_size=c, return_local_RDMs=rdm)

    return lambda X, rdm=True, t=t, eri=eri, tab=tab: f(jnp.asarray(X), (jnp.asarray(t), jnp.asarray(eri)), rdm, {"params": {"table": jnp.asarray(tab)}})


def local(p, ctx):
    from mc import tables

    L, n = p["L"], tuple(p["n"])
    space = [tuple(int(v) for v in c) for c in ref.sector(L, n)]
    X = np.array(space, dtype=np.uint8)
    h, eri = ref.generic_integrals(L, 2)
    t = h - 0.5 * np.einsum("prrq->pq", eri)
    hc, ec = ref.h_classes(L), ref.eri_classes(L)
    # explicit strings: t elementwise, two-body terms per class
    one = {}
    for c in space:
        for a, b in itertools.product(range(L), repeat=2):
            for s in (0, 1):
                r = ref.apply_string(c, [(a, s, True), (b, s, False)])
                # <c'| a+ b |c>, needed for row c'
                if r:
                    one.setdefault(r[1], []).append((a, b, c, r[0]))
    two = [[ref.abinitio_row(c, np.zeros((L, L)), u) for c in space] for _, u in ec]
    go = None
    for kind in ("complex", "real", "zeros"):
        if kind == "zeros" and len(space) < 3:
            continue
        logs = tables.log_table(len(space), "complex" if kind != "real" else "real", 5)
        keep = np.ones(len(space), bool)
        if kind == "zeros":
            logs[1::3] = -np.inf
            keep[1::3] = False
        psi = {c: (np.exp(a) if np.isfinite(a.real) else 0.0) for c, a in zip(space, logs)}
        go = go or evaluate(L, n, space, logs, p["fast"], p["chunk"], t, eri)
        # only ratios matter: in one of the variants no amplitude is a floating-point number
        tab = table(L, space, logs + (900.0 if kind == "zeros" else 0.0))
        sel = np.resize(np.arange(len(space))[keep], -(-len(space) // 2) * 2)
        en, D1, D2 = (np.asarray(a) for a in go(X[sel], tab=tab))
        note = dict(orbitals=L, electrons=n, amplitudes=kind, fast=p["fast"], chunk=p["chunk"])
        ctx.close(en, np.sum(t * D1, axis=(1, 2)) + np.sum(eri * D2, axis=(1, 2, 3, 4)), "the local energy is linear in the integrals", rtol=1e-7, atol=1e-8, **note)
        if kind == "complex" and (L < 4 or p["T"]):
            ctx.close(go(X[sel], False, tab=tab), en, "local energy with and without density matrices", rtol=1e-8, atol=1e-9, **note)
        for k, i in enumerate(sel):
            c = space[i]
            want = np.zeros((L, L), complex)
            for a, b, c2, s in one.get(c, []):
                want[a, b] += s * psi[c2] / psi[c]
            ctx.close(D1[k], want, "local one-body density matrix", rtol=1e-7, atol=1e-8, configuration=c, **note)
            got, exp = [], []
            for (key, u), rows in zip(ec, two):
                got.append(np.sum(u * D2[k]) - 0.5 * np.sum(np.einsum("prrq->pq", u) * D1[k]))
                exp.append(sum(v * psi[c2] for c2, v in rows[i].items()) / psi[c])
            ctx.close(got, exp, "local two-body density matrix, per class of integrals", rtol=1e-7, atol=1e-8, configuration=c, **note)
            ctx.trans(L * L + len(ec))
            ctx.state((kind, c))
        ctx.trace()
    # the density matrices do not depend on the integrals they are evaluated with
    _, E1, E2 = go(X[sel], t=np.zeros_like(t), eri=0.3 * np.ones_like(eri), tab=tab)
    ctx.close(E1, D1, "one-body density matrix with other integrals", rtol=1e-8, atol=1e-9)
    ctx.close(E2, D2, "two-body density matrix with other integrals", rtol=1e-8, atol=1e-9)
    ctx.sample(orbitals=L, electrons=n, configurations=len(space), classes=len(hc) + len(ec))


def spin(p, ctx):
    import tempfile

    sys.path.insert(0, "/repo/scripts/cpd-backflow")
    from cpd_backflow import corrfunc

    L, n = p["L"], tuple(p["n"])
    space = [tuple(int(v) for v in c) for c in ref.sector(L, n)]
    X = np.array(space, dtype=np.uint8)
    Sz = np.array([[0.5 * ((v & 1) - (v >> 1)) for v in c] for c in space])
    used = 0
    go = evaluate(L, n, space, np.zeros(len(space)), False, None, np.zeros((L, L)), np.zeros((L,) * 4))
    for seed in range(2):
        h, eri = ref.generic_integrals(L, seed)
        H = ref.rows_to_matrix([ref.abinitio_row(c, h, eri) for c in space], space).real
        for st, psi in enumerate(np.linalg.eigh(H)[1].T):
            if np.min(np.abs(psi)) < 1e-7:
                continue
            raised = {}
            for c, a in zip(space, psi):
                for k in range(L):
                    r = ref.apply_string(c, [(k, 0, True), (k, 1, False)])
                    if r:
                        raised[r[1]] = raised.get(r[1], 0.0) + r[0] * a
            if any(abs(v) > 1e-8 for v in raised.values()):
                continue  # not a singlet
            used += 1
            if used > 6:
                break
            _, D1, D2 = go(X, t=h, eri=eri, tab=table(L, space, np.log(psi + 0j)))
            w = psi**2
            rdm1 = np.einsum("i,ijk->jk", w, D1).real
            rdm2 = 2 * np.einsum("i,ijklm->jklm", w, D2).real
            for k in range(L):
                rdm2[:, k, k, :] -= rdm1.T
            want = np.einsum("i,ia,ib->ab", w, Sz, Sz)
            with tempfile.TemporaryDirectory() as d:
                np.save(os.path.join(d, "rdm_1.npy"), rdm1)
                np.save(os.path.join(d, "rdm_2.npy"), rdm2)
                got = corrfunc.get_correlations(d)
            ctx.close(got, want, "spin correlations of the sites", rtol=1e-6, atol=1e-7, orbitals=L, electrons=n, state=st)
            # projectors on groups of sites
            for A in itertools.product((0.0, 1.0), repeat=L):
                for B in itertools.product((0.0, 1.0), repeat=L):
                    v = corrfunc.spin_spin_correlation(rdm1, rdm2, np.diag(A), np.diag(B))
                    ctx.close(v, np.asarray(A) @ want @ np.asarray(B), "spin correlations of groups of sites", rtol=1e-6, atol=1e-7, A=A, B=B)
                    ctx.trans()
            ctx.state((seed, st))
            ctx.trace()
    ctx.require(used > 0, "singlets among the eigenstates", found=used)
    ctx.sample(orbitals=L, electrons=n, singlets=used)
