"""C23: the experiment scripts build the systems and models that their configuration names."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc import crash, ref, spinref
from mc.core import fill
from mc.heavy import *

RULE = ("a state is (configuration file, configuration of the Hilbert space) whose matrix elements or amplitude were compared with the explicit construction; a transition is "
        "one matrix element, amplitude or symmetry operation; a trace is one built system or model")
BOUNDS = dict(
    quick="ARGPS: Heisenberg/J1-J2 on chains of 4, 6 and grids 2x2, 2x3, 3x3, open and periodic; Hubbard chains of 2-6; hydrogen chains and sheets of 2-4 atoms, both bases; "
          "every model name x real/complex x set of symmetries. CPD backflow: Hubbard chains of 2-6 and grids up to 3x4 with every boundary condition; molecules of 2-4 "
          "atoms in every orbital basis, pruned and not, closed and open shells; initial states restricted, unrestricted and general, with and without exchange cutoff",
    thorough="as quick with 6 atoms and two parameter sets",
)
ASSUMPTIONS = ["a ring with anti-periodic closure is defined up to the gauge (the place of the negative bond): spectra are compared",
               "localised orbitals are not unique: spectra, orthonormality and the Hartree-Fock state are compared",
               "symmetry groups are those of the graph of the system"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for Lx, Ly, pbc in [(4, None, True), (4, None, False), (6, None, True), (2, 2, False), (2, 3, False), (3, 3, True), (3, 3, False)]:
        out.append(("heisenberg/%sx%s/%s" % (Lx, Ly, pbc), dict(kind="heisenberg", Lx=Lx, Ly=Ly, pbc=pbc)))
    for L in range(2, 7):
        for pbc in (True, False):
            out.append(("argps-hubbard/%d/%s" % (L, pbc), dict(kind="argps-hubbard", L=L, pbc=pbc)))
            out.append(("cpd-hubbard/%d/%s" % (L, pbc), dict(kind="cpd-hubbard", Lx=L, Ly=1, pbc=pbc)))
    for Lx, Ly in ((3, 3), (3, 4), (4, 3)):
        for pbc in ("PBC", "PBC-PBC", "PBC-APBC", "PBC-OBC"):
            out.append(("cpd-hubbard/%dx%d/%s" % (Lx, Ly, pbc), dict(kind="cpd-hubbard", Lx=Lx, Ly=Ly, pbc=pbc)))
    for geo, n in [("chain", 2), ("chain", 4), ("sheet", 4)] + ([("chain", 6), ("sheet", 6)] if T else []):
        for basis in ("canonical", "local"):
            out.append(("argps-hydrogen/%s%d/%s" % (geo, n, basis), dict(kind="argps-hydrogen", geo=geo, n=n, basis=basis)))
    for mol in ("H2", "H4", "H3", "HeH"):
        for basis in ("canonical", "local-boys", "local-pipek-mezey", "local-edmiston-ruedenberg", "local-split"):
            out.append(("cpd-molecule/%s/%s" % (mol, basis), dict(kind="cpd-molecule", mol=mol, basis=basis)))
    for sysname in ("chain4", "grid2x2", "chain4-open", "hubbard", "hydrogen"):
        for model in ("GPS", "FilterGPS", "ARGPS", "MaskedGPS", "ARFilterGPS", "MaskedFilterGPS"):
            if sysname == "hydrogen" and model == "FilterGPS" or sysname in ("grid2x2", "chain4-open") and "Filter" in model:
                continue
            out.append(("argps-model/%s/%s" % (sysname, model), dict(kind="argps-model", sys=sysname, model=model, T=T)))
    for restricted, fixed in ((True, True), (False, True), (False, False)):
        for Lx, n_elec in ((2, (1, 1)), (3, (1, 1)), (4, (2, 2)), (4, (2, 1))):
            if not (restricted and n_elec[0] != n_elec[1]):
                out.append(("cpd-hubbard-model/%s-%s/%d/%s" % (restricted, fixed, Lx, n_elec),
                            dict(kind="cpd-hubbard-model", restricted=restricted, fixed=fixed, Lx=Lx, n_elec=n_elec)))
    return out


def dense_op(*a):
    from mc.dense import dense_op as f

    return f(*a)


def quiet():
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    return st


def put(c, path, v):
    with c.ignore_type():
        *p, k = path.split(".")
        for a in p:
            c = c[a]
        c[k] = v


def run(p, ctx):
    globals()["run_" + p["kind"].replace("-", "_")](p, ctx)


def int_space(hi):
    return [tuple(int(v) for v in s) for s in np.asarray(hi.all_states())]


def compare(ctx, H, R, space, what, spectrum=False, **note):
    H, R = np.asarray(H), np.asarray(R)
    for c in space:
        ctx.state((tuple(sorted(note.items(), key=str)), c))
    ctx.trans(len(space) ** 2)
    ctx.trace()
    ctx.close(H, H.conj().T, what + ": hermitian", rtol=1e-8, atol=1e-9, **note)
    if spectrum:
        ctx.close(np.linalg.eigvalsh(H), np.linalg.eigvalsh(R), what + ": spectrum", rtol=1e-6, atol=1e-6, **note)
    else:
        ctx.close(H, R, what, rtol=1e-6, atol=1e-7, **note)


# ---------------------------------------------------------------- lattice systems
def heisenberg_config(Lx, Ly, pbc, J2, rule):
    from mc import experiments as X

    c = X.module("argps.configs.heisenberg2d").get_config("ARGPS")
    put(c, "system.Lx", Lx)
    put(c, "system.Ly", Ly)
    put(c, "system.pbc", pbc)
    put(c, "system.sign_rule", rule)
    put(c, "system.J2", J2)
    put(c, "system.J1", 0.8)
    return c


def run_heisenberg(p, ctx):
    from mc import experiments as X

    Lx, Ly, pbc = p["Lx"], p["Ly"], p["pbc"]
    n = Lx * (Ly or 1)
    if n % 2:
        return run_heisenberg_odd(p, ctx)
    bip = not (pbc and (Lx % 2 or (Ly or 0) % 2))
    for J2 in (0.0, 0.3):
        for rule in (True, False) if bip else (False,):
            ha = X.module("argps.systems").get_system(heisenberg_config(Lx, Ly, pbc, J2, rule))
            space, R = spinref.j1j2(Lx, Ly, J1=0.8, J2=J2, sign_rule=rule, pbc=pbc)
            ctx.require(sorted(int_space(ha.hilbert)) == sorted(space), "configurations of the system", J2=J2)
            compare(ctx, dense_op(ha, space), R, space, "Heisenberg system", J2=J2, rule=rule)


def run_heisenberg_odd(p, ctx):
    """odd lattices have no sector of zero magnetisation: the request has to be refused"""
    from mc import experiments as X

    try:
        X.module("argps.systems").get_system(heisenberg_config(p["Lx"], p["Ly"], p["pbc"], 0.0, False))
        ok = False
    except Exception:
        ok = True
    ctx.trace()
    ctx.state("odd")
    ctx.require(ok, "an odd lattice with zero magnetisation was accepted")


def hubbard_ref(space, edges, t, U):
    return ref.rows_to_matrix([ref.hubbard_row(c, edges, t, U) for c in space], space)


def run_argps_hubbard(p, ctx):
    from mc import experiments as X

    L, pbc = p["L"], p["pbc"]
    for U in (0.0, 2.5):
        c = X.module("argps.configs.hubbard1d").get_config()
        for k, v in (("Lx", L), ("pbc", pbc), ("U", U), ("t", 0.7)):
            put(c, "system." + k, v)
        ha = X.module("argps.systems").get_system(c)
        space = int_space(ha.hilbert)
        ctx.require(sorted(space) == sorted(ref.sector(L, (L // 2, L // 2))), "half filling", L=L)
        edges = [(i, (i + 1) % L) for i in range(L if pbc else L - 1)]
        t = [0.7] * len(edges)
        anti = pbc and L % 4 == 0
        if anti:
            t[-1] = -0.7
        compare(ctx, dense_op(ha, space), hubbard_ref(space, edges, t, U), space, "Hubbard system", spectrum=anti, U=U)


def grid_edges(Lx, Ly, px, py):
    """[(site, site, wraps in x, wraps in y)] with site = x Ly + y"""
    out = []
    for x, y in itertools.product(range(Lx), range(Ly)):
        if x + 1 < Lx or px:
            out.append((x * Ly + y, (x + 1) % Lx * Ly + y, x + 1 == Lx, False))
        if Ly > 1 and (y + 1 < Ly or py):
            out.append((x * Ly + y, x * Ly + (y + 1) % Ly, False, y + 1 == Ly))
    return out


def cpd_hubbard_config(Lx, Ly, pbc, U, n_elec):
    from mc import experiments as X

    c = X.module("cpd_backflow.configs.fermi_hubbard").get_config()
    for k, v in (("Lx", Lx), ("Ly", Ly), ("pbc", pbc), ("U", U), ("t", 0.7), ("n_elec", n_elec)):
        put(c, "system." + k, v)
    return c


def run_cpd_hubbard(p, ctx):
    from mc import experiments as X

    Lx, Ly, pbc = p["Lx"], p["Ly"], p["pbc"]
    if Ly == 1 and pbc and Lx < 3:
        return run_cpd_hubbard(dict(p, pbc=False), ctx)
    fills = [(1, 1)] if Ly > 1 else [None, (1, 1), (Lx - 1, 1)]
    for U in (0.0, 2.5):
        for n_elec in fills:
            c = cpd_hubbard_config(Lx, Ly, pbc, U, n_elec)
            ha = X.module("cpd_backflow.systems").get_system(c)
            N = Lx * Ly
            want = n_elec or (N // 2, N // 2)
            space = int_space(ha.hilbert)
            ctx.require(sorted(space) == sorted(ref.sector(N, want)), "electron numbers", n_elec=n_elec)
            if Ly == 1:
                E = grid_edges(Lx, 1, pbc, False)
                anti = [bool(pbc) and Lx % 4 == 0]
            else:
                E = grid_edges(Lx, Ly, True, "OBC" not in pbc)
                anti = [True] if "APBC" in pbc else [False]
            refs = []
            for direction in ((2, 3) if Ly > 1 and anti[0] else (2,)):
                t = [-0.7 if anti[0] and e[direction] else 0.7 for e in E]
                refs.append(hubbard_ref(space, [e[:2] for e in E], t, U))
            H = dense_op(ha, space)
            R = refs[0]
            if len(refs) == 2 and not np.allclose(np.linalg.eigvalsh(H), np.linalg.eigvalsh(R), atol=1e-6):
                R = refs[1]  # anti-periodic in the other direction
            compare(ctx, H, R, space, "Fermi-Hubbard system", spectrum=anti[0], U=U, n_elec=n_elec)


# ---------------------------------------------------------------- molecules
def ao_reference(atom, basis_set, unit, n_elec):
    """integrals over symmetrically orthogonalised atomic orbitals, and the Hartree-Fock energy"""
    from pyscf import ao2mo, gto, scf

    mol = gto.M(atom=atom, basis=basis_set, unit=unit, spin=n_elec[0] - n_elec[1], charge=0, verbose=0)
    S = mol.intor("int1e_ovlp")
    w, v = np.linalg.eigh(S)
    Xo = v @ np.diag(w ** -0.5) @ v.T
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    h1 = Xo.T @ h @ Xo
    eri = mol.intor("int2e")
    h2 = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, Xo, Xo, Xo, Xo, optimize=True)
    mf = (scf.RHF if n_elec[0] == n_elec[1] else scf.ROHF)(mol)
    mf.verbose = 0
    mf.kernel()
    return h1, h2, mf.e_tot - mol.energy_nuc()


def abinitio_dense(space, h1, h2):
    return ref.rows_to_matrix([ref.abinitio_row(c, h1, h2) for c in space], space).real


def orthogonal(ctx, h1, h2, ref1, ref2):
    """the integrals are those of the reference in some orthonormal basis"""
    ctx.close(np.linalg.eigvalsh(h1), np.linalg.eigvalsh(ref1), "one-electron integrals", rtol=1e-6, atol=1e-6)
    ctx.close(np.einsum("ppqq", h2), np.einsum("ppqq", ref2), "two-electron integrals", rtol=1e-6, atol=1e-6)
    ctx.close(np.einsum("pqpq", h2), np.einsum("pqpq", ref2), "two-electron integrals", rtol=1e-6, atol=1e-6)


def fock(h1, h2, D):
    """D: density matrix of one spin, closed shell"""
    return h1 + 2 * np.einsum("pqrs,rs->pq", h2, D) - np.einsum("prsq,rs->pq", h2, D)


def run_argps_hydrogen(p, ctx):
    from mc import experiments as X

    c = X.module("argps.configs.hydrogen").get_config("%s,%s,real" % (p["geo"], p["basis"]))
    put(c, "system.n_atoms", p["n"])
    put(c, "system.symmetry", False)
    c = X.module("argps.configs.common").resolve(c)
    dist = c.system.distance
    if p["geo"] == "chain":
        atom = [("H", (i * dist, 0.0, 0.0)) for i in range(p["n"])]
    else:
        a, b = {4: (2, 2), 6: (2, 3)}[p["n"]]
        atom = [("H", (x * dist, y * dist, 0.0)) for x in range(a) for y in range(b)]
    with quiet():
        ha = X.module("argps.systems").get_system(c)
    n = p["n"] // 2
    h1, h2, e_hf = ao_reference(atom, "sto-6g", "Bohr", (n, n))
    space = int_space(ha.hilbert)
    ctx.require(sorted(space) == sorted(ref.sector(p["n"], (n, n))), "electron numbers", n=p["n"])
    local = p["basis"] == "local"
    H = dense_op(ha, space)
    compare(ctx, H, abinitio_dense(space, h1, h2), space, "hydrogen system", spectrum=not local)
    t, e = np.asarray(ha.h_mat), np.asarray(ha.eri_mat)
    orthogonal(ctx, t, e, h1, h2)
    if not local and p["geo"] == "chain":
        D = np.diag([1.0] * n + [0.0] * (p["n"] - n))
        F = fock(t, e, D)
        ctx.close(F - np.diag(np.diag(F)), 0 * F, "canonical orbitals diagonalise the Fock matrix", atol=1e-4)
        ctx.require(np.all(np.diff(np.diag(F)) > -1e-6), "canonical orbitals are in order")
        i = space.index(tuple([3] * n + [0] * (p["n"] - n)))
        ctx.close(H[i, i].real, e_hf, "energy of the first determinant", rtol=1e-6, atol=1e-6)


MOLS = dict(H2=([("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.3, 0.9))], "sto-3g", (1, 1)),
            H4=([("H", (0.0, 0.0, 0.0)), ("H", (0.9, 0.1, 0.0)), ("H", (2.3, 0.0, 0.2)), ("H", (3.1, 0.4, 0.0))], "sto-3g", (2, 2)),
            H3=([("H", (0.0, 0.0, 0.0)), ("H", (0.9, 0.1, 0.0)), ("H", (2.2, 0.0, 0.2))], "sto-3g", (2, 1)),
            HeH=([("He", (0.0, 0.0, 0.0)), ("H", (0.9, 0.1, 0.0)), ("H", (2.2, 0.0, 0.2))], "sto-3g", (2, 2)))


def determinant_energy(H, psi):
    return (psi.conj() @ H @ psi / (psi.conj() @ psi)).real


def amplitudes(ma, hi, space, params=None):
    X_ = jnp.asarray(np.array(space), dtype=jnp.uint8)
    v = ma.init(jax.random.PRNGKey(3), X_[:1])
    if params is not None:
        v = dict(v, params=fill(v["params"], params))
    return np.exp(np.asarray(ma.apply(v, X_)).astype(complex).reshape(-1)), v


def run_cpd_molecule(p, ctx):
    from mc import experiments as X

    atom, bs, n_elec = MOLS[p["mol"]]
    closed = n_elec[0] == n_elec[1]
    h1, h2, e_hf = ao_reference(atom, bs, "angstrom", n_elec)
    L = len(h1)
    M = X.module("cpd_backflow.models")
    for prune in (None, 0.0, 0.05):
        for cutoff in (None, 1, 2) if closed and prune is None else (None,):
            with crash.Scratch() as d:
                os.makedirs(d)
                c = X.module("cpd_backflow.configs.h2o").get_config()
                for k, v in (("molecule", atom), ("basis", p["basis"]), ("basis_set", bs), ("symmetry", False), ("n_elec", n_elec), ("pruning_threshold", prune)):
                    put(c, "system." + k, v)
                if closed:
                    put(c, "system.n_elec", None)
                put(c, "model.exchange_cutoff", cutoff)
                put(c, "model.sigma", 0.0)
                note = dict(pruning=prune, cutoff=cutoff)
                for again in (False, True):  # from scratch, and from the files of the first time
                    with quiet():
                        ha = X.module("cpd_backflow.systems").get_system(c, d)
                    space = int_space(ha.hilbert)
                    ctx.require(sorted(space) == sorted(ref.sector(L, n_elec)), "electron numbers", **note)
                    t, e = np.asarray(ha.h_mat), np.asarray(ha.eri_mat)
                    H = dense_op(ha, space).real
                    if prune:
                        ctx.require(np.all((t == 0) | (np.abs(t) >= prune)) and np.all((e == 0) | (np.abs(e) >= prune)), "small integrals are pruned", **note)
                        ctx.close(t, np.where(np.abs(full[0]) < prune, 0, full[0]), "pruned integrals", atol=1e-6, **note)
                        ctx.close(e, np.where(np.abs(full[1]) < prune, 0, full[1]), "pruned integrals", atol=1e-6, **note)
                        compare(ctx, H, abinitio_dense(space, t, e), space, "pruned molecular system", again=again, **note)
                    else:
                        full = t, e
                        orthogonal(ctx, t, e, h1, h2)
                        compare(ctx, H, abinitio_dense(space, h1, h2), space, "molecular system", spectrum=True, again=again, **note)
                    if prune:
                        continue
                    # the models start from the Hartree-Fock state
                    phi = None
                    for restricted, fixed in ((True, True), (False, True), (False, False)):
                        if restricted and not closed:
                            continue
                        for m in (1, 2):
                            put(c, "model.restricted", restricted)
                            put(c, "model.fixed_magnetization", fixed)
                            put(c, "model.M", m)
                            ma = M.get_model(c, ha.hilbert, ha, d)
                            psi, _ = amplitudes(ma, ha.hilbert, space)
                            ctx.trace()
                            ctx.close(determinant_energy(H, psi), e_hf, "energy of the initial state", rtol=1e-6, atol=1e-6, restricted=restricted, fixed=fixed, M=m, **note)
                    if cutoff and not again:
                        D = hf_density(space, psi, L)
                        K = np.abs(np.einsum("prsq,rs->pq", e, D))
                        env = np.asarray(ma.environments)
                        ctx.require(env.shape == (L, cutoff), "shape of the environments", **note)
                        for i in range(L):
                            ctx.trans()
                            ctx.close(np.sort(K[i, env[i]]), np.sort(K[i])[-cutoff:], "environments hold the most strongly coupled orbitals", rtol=1e-4, atol=1e-6, orbital=i, **note)


def hf_density(space, psi, L):
    """<c+_p c_q> of both spins"""
    a = {c: x for c, x in zip(space, psi / np.linalg.norm(psi))}
    D = np.zeros((L, L))
    for c, x in a.items():
        for p_, q, s in itertools.product(range(L), range(L), (0, 1)):
            r = ref.apply_string(c, [(p_, s, True), (q, s, False)])
            if r:
                D[p_, q] += (r[0] * np.conj(a[r[1]]) * x).real
    return D


def run_cpd_hubbard_model(p, ctx):
    from mc import experiments as X

    L, n_elec = p["Lx"], tuple(p["n_elec"])
    for pbc in (False, True) if L > 2 else (False,):
        for U in (1.0, 4.0):
            c = cpd_hubbard_config(L, 1, pbc, U, n_elec)
            put(c, "model.sigma", 0.0)
            put(c, "model.restricted", p["restricted"])
            put(c, "model.fixed_magnetization", p["fixed"])
            with quiet():
                ha = X.module("cpd_backflow.systems").get_system(c)
                ma = X.module("cpd_backflow.models").get_model(c, ha.hilbert, ha)
            space = int_space(ha.hilbert)
            H = dense_op(ha, space).real
            psi, _ = amplitudes(ma, ha.hilbert, space)
            psi = psi / np.linalg.norm(psi)
            index = {x: i for i, x in enumerate(space)}
            ctx.trace()
            # Brillouin's theorem: the mean-field state is stationary under every rotation of the orbitals
            h = H @ psi
            for a, b, s in itertools.product(range(L), range(L), (0, 1)):
                g = np.zeros(len(space), dtype=complex)
                for x, i in index.items():
                    r = ref.apply_string(x, [(a, s, True), (b, s, False)])
                    if r:
                        g[index[r[1]]] += r[0] * psi[i]
                        ctx.trans()
                g2 = np.zeros(len(space), dtype=complex)
                for x, i in index.items():
                    r = ref.apply_string(x, [(b, s, True), (a, s, False)])
                    if r:
                        g2[index[r[1]]] += r[0] * psi[i]
                if p["restricted"] and s == 0:
                    first = h.conj() @ (g - g2)
                    continue_sum = first
                    other = np.zeros(len(space), dtype=complex)
                    for x, i in index.items():
                        for (u, w), f in (((a, b), 1), ((b, a), -1)):
                            r = ref.apply_string(x, [(u, 1, True), (w, 1, False)])
                            if r:
                                other[index[r[1]]] += f * r[0] * psi[i]
                    ctx.close((continue_sum + h.conj() @ other).real, 0.0, "the initial state is the mean-field state", atol=2e-4, pbc=pbc, U=U, rotation=(a, b))
                elif not p["restricted"]:
                    ctx.close((h.conj() @ (g - g2)).real, 0.0, "the initial state is the mean-field state", atol=2e-4, pbc=pbc, U=U, rotation=(a, b, s))
            for x in space:
                ctx.state((pbc, U, x))
            # one determinant: the density matrix of each spin is idempotent, with the right number of electrons
            if p["fixed"]:
                for s in (0, 1):
                    D = np.zeros((L, L))
                    for a, b in itertools.product(range(L), range(L)):
                        for x, i in index.items():
                            r = ref.apply_string(x, [(a, s, True), (b, s, False)])
                            if r:
                                D[a, b] += (r[0] * np.conj(psi[index[r[1]]]) * psi[i]).real
                    ctx.close(D @ D, D, "the initial state is one determinant", atol=1e-7, pbc=pbc, U=U)
                    ctx.close(np.trace(D), n_elec[s], "electrons of the initial state", atol=1e-7, pbc=pbc, U=U)


# ---------------------------------------------------------------- ARGPS models
def run_argps_model(p, ctx):
    from mc import experiments as X

    S, name = p["sys"], p["model"]
    with quiet():
        if S in ("hubbard", "hydrogen"):
            if S == "hubbard":
                c = X.module("argps.configs.hubbard1d").get_config()
                put(c, "system.Lx", 3)
            else:
                c = X.module("argps.configs.hydrogen").get_config("chain,local,real")
                put(c, "system.n_atoms", 2)
                put(c, "system.symmetry", False)
                c = X.module("argps.configs.common").resolve(c).unlock()
            groups = ["none"]
        else:
            c = X.module("argps.configs.heisenberg2d").get_config(name)
            put(c, "system.Lx", 2 if S == "grid2x2" else 4)
            put(c, "system.Ly", 2 if S == "grid2x2" else None)
            put(c, "system.pbc", S == "chain4")
            groups = ["none", "spin-flip"]
            if S == "chain4":
                groups += ["translations", "translations,spin-flip", "point-symmetries", "point-symmetries,spin-flip", "automorphisms", "all"]
            if S == "grid2x2":
                groups += ["point-symmetries", "point-symmetries,spin-flip"]
        ha = X.module("argps.systems").get_system(c)
    hi = ha.hilbert
    graph = getattr(ha, "graph", None)
    put(c, "model_name", name)
    put(c, "model.M", 2)
    space = int_space(hi)
    index = {x: i for i, x in enumerate(space)}
    L = len(space[0])
    dt = jnp.float64 if S not in ("hubbard", "hydrogen") else jnp.uint8
    Xs = jnp.asarray(np.array(space), dtype=dt)
    for sym, dtype, seed in itertools.product(groups, ("real", "complex"), (1, 2) if p["T"] else (1,)):
        put(c, "model.symmetries", sym)
        put(c, "model.dtype", dtype)
        ma = X.module("argps.models").get_model(c, hi, graph)
        v = ma.init(jax.random.PRNGKey(0), Xs[:1])
        ok = all(np.iscomplexobj(np.asarray(l)) == (dtype == "complex") for l in jax.tree_util.tree_leaves(v["params"]))
        note = dict(symmetries=sym, dtype=dtype)
        ctx.require(ok, "type of the parameters", **note)
        v = dict(v, params=fill(v["params"], seed))
        psi = np.exp(np.asarray(ma.apply(v, Xs, mutable=[k for k in v if k != "params"])[0] if len(v) > 1 else ma.apply(v, Xs)).astype(complex).reshape(-1))
        ctx.trace()
        ctx.require(np.all(np.isfinite(psi)) and np.all(np.abs(psi) > 0), "amplitudes of the sector", **note)
        if name.startswith("AR"):
            ctx.close(np.sum(np.abs(psi) ** 2), 1.0, "normalisation", rtol=1e-6, **note)
        perms = []
        flip = "spin-flip" in sym or sym in ("all", "automorphisms")
        if graph is not None:
            if sym in ("all", "automorphisms") or "translations" in sym and "point" in sym:
                perms = np.asarray(graph.automorphisms().to_array())
            elif "translations" in sym:
                perms = np.asarray(graph.translation_group().to_array())
            elif "point" in sym:
                perms = np.asarray(graph.point_group().to_array())
        if name == "FilterGPS":
            flip = False
            perms = np.array([[(i + k) % L for i in range(L)] for k in range(L)]) if S in ("chain4", "hubbard") else []
        if S in ("hubbard", "hydrogen"):
            flip = False
        for x in space:
            ctx.state((sym, dtype, x))
            for g in perms:
                ctx.trans()
                y = tuple(x[i] for i in g)
                ctx.close(psi[index[y]], psi[index[x]], "invariance under the requested symmetries", rtol=1e-6, atol=0, x=x, operation=g.tolist(), **note)
            if flip:
                ctx.trans()
                ctx.close(psi[index[tuple(-o for o in x)]], psi[index[x]], "invariance under spin flip", rtol=1e-6, atol=0, x=x, **note)
        if sym == "none" and name != "FilterGPS" and len(space) > 2:
            d = np.abs(psi[:, None] - psi[None, :])[np.triu_indices(len(space), 1)]
            ctx.require(np.max(d) > 1e-6, "amplitudes depend on the configuration", **note)
        # cached updates of symmetrised models
        if name == "GPS" and S not in ("hubbard", "hydrogen"):
            for x in space:
                y, cache = ma.apply(v, jnp.asarray([x], dtype=dt), cache_intermediates=True, mutable=["intermediates_cache"])
                z = [q for q in space if sum(a != b for a, b in zip(x, q)) == 2]
                for q in z:
                    sites = [i for i in range(L) if x[i] != q[i]]
                    w = dict(v, intermediates_cache=cache["intermediates_cache"])
                    out = ma.apply(w, jnp.asarray([[q[i] for i in sites]], dtype=dt), update_sites=jnp.asarray([sites]), mutable=["intermediates_cache"])[0]
                    ctx.trans()
                    ctx.close(np.exp(np.asarray(out).astype(complex)).reshape(()), psi[index[q]], "cached update of a symmetrised model", rtol=1e-6, x=x, y=q, **note)
