"""C08: determinant, Pfaffian, Jastrow and backflow amplitudes are the antisymmetric functions they are defined as."""
import itertools

import numpy as np

from mc import ref
from mc.core import Violation
from mc.heavy import *

RULE = ("a state is (model, parameters, configuration) whose amplitude was compared with the explicit permutation expansion, or a "
        "matrix whose Pfaffian was; a transition is one evaluated amplitude; a trace is one evaluation of a whole sector")
BOUNDS = dict(
    quick="every configuration of representative sectors of 2-4 orbitals for every model and option (restricted, unrestricted and "
          "general orbitals, several determinants, symmetric copies, spin projection); every skew-symmetric 2x2 and 4x4 "
          "matrix with entries in {-1,0,1}, every 6x6 pairing pattern with at most nine pairs, in two fillings, 8x8 and 10x10 ones with every pattern of "
          "vanishing entries in the first row; for ten models also 6-7 orbitals with up to eight electrons, one configuration and all those one hop away; "
          "orbitals scaled by 1e-120 and 1e120",
    thorough="as quick with more sectors, 5 orbitals and every 6x6 pairing pattern",
)
ASSUMPTIONS = ["the electrons are ordered all up electrons first, ascending, then all down electrons",
               "restricted orbitals need as many up as down electrons"]

MODELS = [
    ("Slater/restricted", 0), ("Slater/restricted/2det/sym", 0), ("Slater/unrestricted", 1), ("Slater/unrestricted/2det", 1),
    ("Slater/unrestricted/sym", 1), ("Slater/general", 1), ("Slater/general/2det/sym", 1), ("Slater/unrestricted/rot", 1),
    ("Slater/unrestricted/rot/2det/sym", 0), ("Slater/unrestricted/real", 1), ("Slater/general/real", 1),
    ("SlaterqGPS/restricted", 0), ("SlaterqGPS/unrestricted/2det/sym", 1), ("SlaterqGPS/general/sym", 1),
    ("SlaterJastrow/restricted", 0), ("SlaterJastrow/unrestricted/2det/sym", 1), ("SlaterJastrow/general", 1),
    ("Jastrow", 1), ("Jastrow/sym", 1), ("Jastrow/real", 1),
    ("ASymmqGPS/unrestricted", 1), ("ASymmqGPS/unrestricted/2det/sym", 1), ("ASymmqGPS/restricted/2det/sym/projective", 0),
    ("ASymmqGPS/unrestricted/2det/projective", 1), ("ASymmqGPSProd/unrestricted", 1), ("ASymmqGPSProd/unrestricted/3det/sym", 1),
    ("ASymmqGPSProd/restricted/3det", 0),
    ("CPDBackflow/restricted", 0), ("CPDBackflow/unrestricted", 1), ("CPDBackflow/general", 1),
    ("CPDBackflow/restricted/env", 0), ("CPDBackflow/unrestricted/env", 1), ("CPDBackflow/general/env", 1), ("CPDBackflow/unrestricted/real", 1),
    ("Backflow/restricted", 0), ("Backflow/unrestricted/sym", 1), ("Backflow/general", 1), ("Backflow/unrestricted/noorb", 1),
    ("Backflow/general/noorb/sym", 1),
    ("BackflowJastrow/restricted", 0), ("BackflowJastrow/unrestricted/sym", 1), ("BackflowJastrow/general", 1),
    ("PfaffianState", 2), ("PfaffianState/sym", 2), ("PfaffianState/real", 2),
    ("ZeroMagnetizationPfaffian", 0), ("ZeroMagnetizationPfaffian/rot", 0), ("ZeroMagnetizationPfaffian/rot/sym", 0),
    ("ZeroMagnetizationPfaffian/real/sym", 0),
]
SECTORS = {0: [(2, (1, 1)), (3, (1, 1)), (3, (2, 2)), (4, (2, 2))], 1: [(3, (2, 1)), (3, (1, 2)), (4, (2, 2)), (4, (1, 3)), (3, (3, 2))],
           2: [(3, (1, 1)), (3, (2, 2)), (4, (2, 2)), (3, (2, 0)), (4, (1, 3))]}


def cases(tier):
    out = []
    for k, (name, kind) in enumerate(MODELS):
        secs = list(SECTORS[kind])
        if tier == "thorough":
            secs += {0: [(4, (1, 1)), (4, (3, 3)), (5, (2, 2))], 1: [(4, (3, 2)), (2, (1, 2)), (5, (2, 3)), (4, (4, 1))], 2: [(4, (3, 1)), (5, (2, 2))]}[kind]
        else:
            secs = secs[:1] + [s for j, s in enumerate(secs[1:]) if (j + k) % 2 == 0]
        out.append((name, dict(kind="amp", name=name, secs=secs, T=tier == "thorough")))
    # more electrons: one configuration and everything one hop away from it
    for name, L, n in [("Slater/unrestricted/2det", 7, (4, 3)), ("Slater/general", 6, (3, 4)), ("Slater/restricted", 7, (4, 4)), ("SlaterqGPS/unrestricted/2det/sym", 6, (3, 3)),
                       ("SlaterJastrow/unrestricted/2det/sym", 6, (4, 2)), ("ASymmqGPS/unrestricted/2det/sym", 6, (4, 3)), ("CPDBackflow/unrestricted", 6, (4, 3)),
                       ("Backflow/unrestricted/sym", 6, (3, 3)), ("PfaffianState", 6, (4, 4)), ("ZeroMagnetizationPfaffian/rot/sym", 6, (4, 4))]:
        out.append(("around one/%s/L%d" % (name, L), dict(kind="amp", name=name, secs=[(L, n)], T=tier == "thorough", around=True)))
    for n in (2, 4):
        out.append(("pfaffian/%d" % n, dict(kind="pf", n=n)))
    for n in (8, 10):
        out.append(("pfaffian/%d" % n, dict(kind="pfbig", n=n)))
    pats = 32768
    step = 4096
    for k in range(0, pats, step):
        out.append(("pfaffian/6/%d" % k, dict(kind="pf6", lo=k, hi=k + step, cap=9 if tier == "quick" else 15)))
    for L, n in [(2, 1), (3, 1), (3, 2), (4, 2)]:
        out.append(("singlet/L%d/n%d" % (L, n), dict(kind="singlet", L=L, n=n)))
    return out


def run(p, ctx):
    from mc import amps, zoo

    if p["kind"] == "amp":
        for L, n in p["secs"]:
            e = zoo.fermion_entry(p["name"], L, tuple(n))
            if p.get("around"):
                c = e.space[(5 * len(e.space)) // 11]
                e.space = [c] + [d for d in e.space if sum(1 for a, b in zip(c, d) if a != b) == 2]
            amps.check_amplitudes(e, ctx, seeds=(0, 1, 2) if p["T"] else (0,), deep=(L == p["secs"][0][0]))
            base = p["name"].split("/")[0]
            deg = {"Slater": n[0] + n[1], "PfaffianState": (n[0] + n[1]) / 2, "ZeroMagnetizationPfaffian": n[0]}.get(base)
            if deg:  # homogeneous in the orbitals, also where the amplitude itself is not a floating-point number
                v = e.variables(0)
                xs = e.inputs(e.space)
                f = jax.jit(e.model.apply)
                plain = np.asarray(f(v, xs), dtype=complex)
                for s in (1e-120, 1e120):
                    big = np.asarray(f(jax.tree_util.tree_map(lambda a: a * s, v), xs), dtype=complex)
                    d = big - plain - deg * np.log(s)
                    live = plain.real > -20
                    ctx.close(np.where(live, d.real, 0.0), 0 * d.real, "log-amplitude for scaled orbitals", atol=1e-7, model=e.name, factor=s)
                    ctx.close(np.where(live, np.exp(1j * d.imag), 1.0), np.ones(d.shape), "phase for scaled orbitals", atol=1e-7, model=e.name, factor=s)
                    ctx.trans(len(e.space))
            if e.electron_input:  # antisymmetry under exchange of any two electrons
                v = e.variables(0)
                y = np.asarray(e.inputs(e.space))
                base = np.exp(np.asarray(e.model.apply(v, jnp.asarray(y))))
                for a, b in itertools.combinations(range(y.shape[1]), 2):
                    z = y.copy()
                    z[:, [a, b]] = z[:, [b, a]]
                    ctx.close(np.exp(np.asarray(e.model.apply(v, jnp.asarray(z)))), -base, "antisymmetry", model=e.name, swap=(a, b))
                    ctx.trans(len(y))
    elif p["kind"] in ("pf", "pf6"):
        from GPSKet.models.pfaffian import log_pfaffian

        n = 6 if p["kind"] == "pf6" else p["n"]
        pairs = list(itertools.combinations(range(n), 2))
        mats = []
        if p["kind"] == "pf":
            for vals in itertools.product((0.0, 1.0, -1.0), repeat=len(pairs)):
                mats.append(vals)
        else:
            g = [0.5 + 0.21 * ((7 * k) % 11) * (-1) ** k for k in range(len(pairs))]
            for mask in range(p["lo"], p["hi"]):
                if bin(mask).count("1") > p["cap"]:
                    continue
                # nine of fifteen pairs already contain every pattern of vanishing pivots with a perfect matching left
                on = [(mask >> k) & 1 for k in range(len(pairs))]
                mats.append([float(o) for o in on])
                mats.append([o * w for o, w in zip(on, g)])
        A = np.zeros((len(mats), n, n))
        for k, vals in enumerate(mats):
            for (i, j), w in zip(pairs, vals):
                A[k, i, j], A[k, j, i] = w, -w
        if n == 2:
            expected = A[:, 0, 1]
        else:
            def pf4(B, idx):
                a, b, c, d = idx
                return B[:, a, b] * B[:, c, d] - B[:, a, c] * B[:, b, d] + B[:, a, d] * B[:, b, c]
            if n == 4:
                expected = pf4(A, (0, 1, 2, 3))
            else:
                expected = 0
                for j in range(1, 6):
                    rest = [k for k in range(1, 6) if k != j]
                    expected = expected + (-1) ** (j - 1) * A[:, 0, j] * pf4(A, rest)
        f = jax.jit(jax.vmap(log_pfaffian))
        ctx.log_close(np.asarray(f(jnp.asarray(A))), expected, "Pfaffian", atol=1e-7)
        ctx.log_close(np.asarray(f(jnp.asarray(A * (0.6 - 0.8j)))), expected * (0.6 - 0.8j) ** (n // 2), "Pfaffian of a complex matrix", atol=1e-7)
        for k in range(len(mats)):
            ctx.state((n, tuple(mats[k])))
        ctx.trans(2 * len(mats))
        ctx.trace(2)
        # derivative of the logarithm, on the clearly non-singular matrices
        ok = np.abs(expected) > 0.2
        B = A[ok][:200]
        if len(B):
            D = np.zeros((n, n))
            for k, (i, j) in enumerate(pairs):
                D[i, j], D[j, i] = 0.3 + 0.1 * k, -0.3 - 0.1 * k
            h = 1e-6
            fp, fm = [np.asarray(f(jnp.asarray(B + s * h * D))) for s in (1, -1)]
            num = (np.exp(fp) - np.exp(fm)) / (2 * h) / np.asarray(np.exp(f(jnp.asarray(B))))
            _, tang = jax.vmap(lambda M: jax.jvp(log_pfaffian, (M,), (jnp.asarray(D),)))(jnp.asarray(B))
            ctx.close(np.asarray(tang), num, "derivative of the Pfaffian", rtol=1e-4, atol=1e-4)
        ctx.sample(matrices=len(mats), size=n)
    elif p["kind"] == "pfbig":  # larger matrices: every pattern of vanishing entries of the first row (its leading columns for 10x10)
        from GPSKet.models.pfaffian import log_pfaffian

        n = p["n"]
        A = []
        for pat in itertools.product((0, 1), repeat=min(n - 1, 7)):
            for cplx in (False, True):
                B = np.array([[np.sin(3.1 * i + 1.7 * j + 0.3 * i * j) + (1j * np.cos(2.3 * i - j) if cplx else 0) for j in range(n)] for i in range(n)])
                B = B - B.T
                for k, on in enumerate(pat):
                    B[0, k + 1] *= on
                    B[k + 1, 0] *= on
                A.append(B)
        A = np.array(A)
        if n == 10:
            A = A[::5]
        want = np.array([ref.pfaffian(B) for B in A])
        f = jax.jit(jax.vmap(log_pfaffian))
        ctx.log_close(np.asarray(f(jnp.asarray(A))), want, "Pfaffian", atol=1e-7, rtol=1e-6)
        for k in range(len(A)):
            ctx.state((n, k))
        ctx.trans(len(A))
        ctx.trace()
        ctx.sample(matrices=len(A), size=n)
    else:  # spin projection onto the singlet
        L, n = p["L"], p["n"]
        basis = ref.sector(L, (n, n))
        c = ref.annihilators(L)
        # S^2 = S- S+ + Sz(Sz+1) with Sz = 0
        Sp = sum(c[i, 0].T @ c[i, 1] for i in range(L))
        S2 = ref.restrict((Sp.T @ Sp), L, basis)
        HA = nk.utils.HashableArray
        from GPSKet.models.pfaffian import get_gauss_leg_elements_Sy

        proj = get_gauss_leg_elements_Sy(n + 2)
        from mc.core import fill

        hi = FermionicDiscreteHilbert(L, n_elec=(n, n))
        x = jnp.asarray(np.array(basis, dtype=np.uint8))
        for sym in (False, True):
            kw = dict(symmetries=zoo.electron_syms(zoo.translations(L))) if sym else {}
            m = gmod.Slater(hi, n_determinants=2, S2_projection=proj, **kw)
            v = {"params": fill(flax.core.unfreeze(m.init(jax.random.PRNGKey(0), x[:1]))["params"], 5)}
            psi = np.exp(np.asarray(m.apply(v, x)))
            ctx.require(np.max(np.abs(psi)) > 1e-3, "the projected state vanishes", L=L, n=n)
            ctx.close(S2 @ psi, 0 * psi, "projected determinants are a singlet", atol=1e-8, L=L, n=n, sym=sym)
            raw = gmod.Slater(hi, n_determinants=2, **kw)
            psi0 = np.exp(np.asarray(raw.apply(v, x)))
            # the projection itself: the singlet component of the unprojected state
            w, V = np.linalg.eigh(S2)
            P = V[:, np.abs(w) < 1e-6]
            target = P @ (P.conj().T @ psi0)
            k = np.argmax(np.abs(target))
            if np.abs(target[k]) > 1e-6 and not sym:
                ctx.close(psi * (target[k] / psi[k]), target, "projected onto the singlet component", atol=1e-7, L=L, n=n)
                ctx.close(psi[k] / target[k], 2.0, "normalisation of the quadrature", atol=1e-7, L=L, n=n)
            ctx.trans(len(basis))
            ctx.trace()
        rows = []
        for conf in basis:
            up, dn = zoo.electrons(conf)
            rows.append(up + [q + L for q in dn])
        y = jnp.asarray(np.array(rows))
        from GPSKet.models.pfaffian import ZeroMagnetizationPfaffian
        m = ZeroMagnetizationPfaffian(L, S2_projection=proj)
        v = {"params": fill(flax.core.unfreeze(m.init(jax.random.PRNGKey(0), y[:1]))["params"], 6)}
        psi = np.exp(np.asarray(m.apply(v, y)))
        ctx.close(S2 @ psi, 0 * psi, "projected Pfaffian is a singlet", atol=1e-8, L=L, n=n)
        ctx.require(np.max(np.abs(psi)) > 1e-3, "the projected Pfaffian vanishes", L=L, n=n)
        for k in range(len(basis)):
            ctx.state(("singlet", L, n, k))
        ctx.trans(len(basis))
        ctx.trace()
        ctx.sample(singlet=dict(L=L, n=n))
