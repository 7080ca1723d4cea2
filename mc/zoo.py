"""The models of the library together with their defining formulas, written out by brute force."""
import itertools

import numpy as np

from mc import ref
from mc.core import fill, generic
from mc.heavy import *


def leaf(tree, name, k=0):
    """The k-th parameter called `name` anywhere in a parameter tree."""
    found = []

    def walk(t):
        for key in t:
            if hasattr(t[key], "items"):
                walk(t[key])
            elif key == name:
                found.append(np.asarray(t[key]))

    walk(t=tree)
    return found[k]


def electrons(c):
    """Positions of the up electrons, then of the down electrons, each ascending."""
    return ([k for k in range(len(c)) if ref.has(c, k, 0)], [k for k in range(len(c)) if ref.has(c, k, 1)])


# ---- symmetry operations as the models take them
def translations(L, step=1):
    return np.array([[(i + t) % L for t in range(0, L, step)] for i in range(L)])  # (L, T)


def electron_syms(P):
    Pj = jnp.asarray(P)
    return lambda y: Pj[y]


def occ_syms(P):
    """(copies of a configuration, transformed updates) for site permutations P of shape (L, T)"""
    P = np.asarray(P)
    inv = np.zeros_like(P)
    for t in range(P.shape[1]):
        for i in range(P.shape[0]):
            inv[P[i, t], t] = i
    Pj, Ij = jnp.asarray(P), jnp.asarray(inv)

    def sym(s):
        return jnp.take(s, Pj, axis=-1)

    def inv_sym(occ, sites):
        return jnp.tile(jnp.expand_dims(occ, -1), P.shape[1]), Ij[sites]

    return (sym, inv_sym)


# ---- formulas
def gps_log(eps, loc, perms=None, flip=False):
    """sum over support dimensions and symmetric copies of the product over sites"""
    D, M, L = eps.shape
    perms = translations(L)[:, :1] if perms is None else perms
    tot = 0.0
    for t in range(perms.shape[1]):
        copies = [[loc[perms[i, t]] for i in range(L)]]
        if flip:
            copies.append([1 - o for o in copies[0]])
        for c in copies:
            for m in range(M):
                pr = 1.0
                for i in range(L):
                    pr = pr * eps[c[i], m, i]
                tot = tot + pr
    return tot


def slater_dets(U, c, L, perms, rot=None):
    """[rotation][symmetry] determinants of one orbital matrix U (2L, N)"""
    up, dn = electrons(c)
    out = []
    for angle in ([0.0] if rot is None else rot):
        R = np.zeros_like(U, dtype=complex)
        co, si = np.cos(angle / 2), np.sin(angle / 2)
        R[:L] = co * U[:L] - si * U[L:]
        R[L:] = si * U[:L] + co * U[L:]
        row = []
        for t in range(perms.shape[1]):
            pos = [perms[k, t] for k in up] + [perms[k, t] + L for k in dn]
            row.append(ref.det(R[pos, :]))
        out.append(row)
    return np.array(out)


def slater_U(par, L, n, kind, d):
    if kind == "general":
        return leaf(par, "U")[d].astype(complex)
    up = leaf(par, "U_up")[d]
    dn = up if kind == "restricted" else leaf(par, "U_down")[d]
    U = np.zeros((2 * L, n[0] + n[1]), dtype=complex)
    U[:L, : n[0]] = up
    U[L:, n[0]:] = dn
    return U


def jastrow_log(K, c, perms):
    L = len(c)
    tot = 0.0
    for t in range(perms.shape[1]):
        x = [c[perms[i, t]] for i in range(L)]
        for i in range(L):
            for j in range(L):
                tot = tot + (1 - ref.has(x, i, 0)) * (K[i, j] + K[j, i]) * (1 - ref.has(x, j, 1))
    return tot


class Entry:
    """One model: `amp(params, variables, config)` is its defining formula."""

    def __init__(self, name, hi, model, amp, space, loc=None, fast=False, electron_input=False, scale=1.0):
        self.name, self.hi, self.model, self.amp, self.space = name, hi, model, amp, space
        self.loc = loc or (lambda c: c)
        self.fast = fast
        self.electron_input = electron_input
        self.scale = scale

    def inputs(self, configs, dtype=None):
        if self.electron_input:
            L = self.hi.size
            rows = []
            for c in configs:
                up, dn = electrons(c)
                rows.append(up + [k + L for k in dn])
            return jnp.asarray(np.array(rows, dtype=np.int64))
        if dtype is None:
            dtype = np.uint8 if isinstance(self.hi, FermionicDiscreteHilbert) else np.float64
        return jnp.asarray(np.array(configs), dtype=dtype)

    def variables(self, seed=0):
        v = flax.core.unfreeze(self.model.init(jax.random.PRNGKey(1), self.inputs(self.space[:1])))
        v = {k: w for k, w in v.items() if k != "intermediates_cache"}
        v["params"] = fill(v["params"], seed, scale=self.scale)
        return v


def ident(L):
    return np.arange(L).reshape(L, 1)


# ---- fermionic models
def fermion_entry(name, L, n, tag=""):
    hi = FermionicDiscreteHilbert(L, n_elec=None if n is None else tuple(n))
    space = ref.sector(L, n)
    parts = name.split("/")
    base, opts = parts[0], set(parts[1:])
    dt = jnp.float64 if "real" in opts else jnp.complex128
    T = translations(L) if "sym" in opts else ident(L)
    HashableArray = nk.utils.HashableArray

    if base == "Slater":
        kind = [k for k in ("restricted", "unrestricted", "general") if k in opts][0]
        nd = 2 if "2det" in opts else 1
        rot = chars = None
        kw = {}
        if "rot" in opts:
            rot, chars = np.array([0.3, 1.1, 2.0]), np.array([0.7, -0.4, 1.3])
            kw["S2_projection"] = (HashableArray(rot), HashableArray(chars))
        if "sym" in opts:
            kw["symmetries"] = electron_syms(T)
        model = gmod.Slater(hi, n_determinants=nd, dtype=dt, spin_symmetry_by_structure=kind == "restricted",
                            fixed_magnetization=kind != "general", constant_time_updates="lin" not in opts, **kw)

        def amp(v, c):
            tot = 0
            for d in range(nd):
                D = slater_dets(slater_U(v["params"], L, n, kind, d), c, L, T, rot)
                tot = tot + np.sum(D * (1.0 if chars is None else chars[:, None]))
            return tot

        return Entry(name, hi, model, amp, space, fast=True)
    if base in ("SlaterqGPS", "SlaterJastrow"):
        kind = [k for k in ("restricted", "unrestricted", "general") if k in opts][0]
        nd = 2 if "2det" in opts else 1
        kw = dict(dtype=dt, n_determinants=nd, spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general")
        if "sym" in opts:
            kw["slater_apply_symmetries"] = electron_syms(T)
        if base == "SlaterqGPS":
            if "sym" in opts:
                kw["qGPS_apply_symmetries"] = occ_syms(T)
            model = gmod.SlaterqGPS(hi, M=2, **kw)
            fac = lambda v, c: gps_log(leaf(v["params"], "epsilon"), c, T)
        else:
            if "sym" in opts:
                kw["jastrow_apply_symmetries"] = lambda x: jnp.take(x, jnp.asarray(T), axis=-1)
            model = gmod.SlaterJastrow(hi, **kw)
            fac = lambda v, c: jastrow_log(leaf(v["params"], "kernel"), c, T)

        def amp(v, c):
            tot = sum(np.sum(slater_dets(slater_U(v["params"], L, n, kind, d), c, L, T)) for d in range(nd))
            return tot * np.exp(fac(v, c))

        return Entry(name, hi, model, amp, space, fast=base == "SlaterqGPS")
    if base == "Jastrow":
        kw = dict(apply_symmetries=lambda x: jnp.take(x, jnp.asarray(T), axis=-1)) if "sym" in opts else {}
        model = gmod.Jastrow(hi, dtype=dt, **kw)
        return Entry(name, hi, model, lambda v, c: np.exp(jastrow_log(leaf(v["params"], "kernel"), c, T)), space, scale=0.4)
    if base in ("ASymmqGPS", "ASymmqGPSProd"):
        kind = "restricted" if "restricted" in opts else "unrestricted"
        kw = dict(dtype=dt, spin_symmetry_by_structure=kind == "restricted")
        if "sym" in opts:
            kw["apply_symmetries"] = electron_syms(T)
        if base == "ASymmqGPS":
            nd = 2 if "2det" in opts else 1
            co = np.array([0.8, -1.3])[:nd] if nd == 2 else np.ones(1)
            mode = "projective" if "projective" in opts else "kernel"
            model = gmod.ASymmqGPS(hi, n_determinants=nd, coeffs=HashableArray(co), symmetrization=mode, **kw)

            def amp(v, c):
                D = sum(co[d] * slater_dets(slater_U(v["params"], L, n, kind, d), c, L, T)[0] for d in range(nd))
                return np.sinh(np.sum(D)) if mode == "kernel" else np.sum(np.sinh(D))
        else:
            nd = 3 if "3det" in opts else 1
            model = gmod.ASymmqGPSProd(hi, n_determinants=nd, **kw)

            def amp(v, c):
                D = [slater_dets(slater_U(v["params"], L, n, kind, d), c, L, T)[0] for d in range(nd)]
                return np.sum(np.prod(np.sinh(np.array(D)), axis=0))

        return Entry(name, hi, model, amp, space, fast=True)
    if base == "CPDBackflow":
        kind = [k for k in ("restricted", "unrestricted", "general") if k in opts][0]
        env = None
        kw = {}
        if "env" in opts:
            env = np.array([[(a + 1) % L, a] for a in range(L)])
            kw["environments"] = HashableArray(env)
            kw["apply_fast_update"] = False
        model = gmod.CPDBackflow(hi, 2, dtype=dt, restricted=kind == "restricted", fixed_magnetization=kind != "general", **kw)

        def amp(v, c):
            e = leaf(v["params"], "epsilon")
            phi = np.zeros(e.shape[:2], dtype=complex)
            for a in range(e.shape[0]):
                occ = [c[k] for k in (range(L) if env is None else env[a % L])]
                for el in range(e.shape[1]):
                    phi[a, el] = sum(np.prod([e[a, el, o, m, k] for k, o in enumerate(occ)]) for m in range(e.shape[3]))
            up, dn = electrons(c)
            if kind == "general":
                return ref.det(phi[up + [k + L for k in dn], :])
            if kind == "restricted":
                return ref.det(phi[up, :]) * ref.det(phi[dn, :])
            return ref.det(phi[up, : n[0]]) * ref.det(phi[dn, n[0]:])

        return Entry(name, hi, model, amp, space, fast=env is None)
    if base in ("Backflow", "BackflowJastrow"):
        kind = [k for k in ("restricted", "unrestricted", "general") if k in opts][0]
        rows = 2 * L if kind == "general" else L
        cols = n[0] if kind == "restricted" else n[0] + n[1]
        nT = T.shape[1]
        nd = 2 if base == "BackflowJastrow" else 1
        orb = [generic((rows, cols), 50 + d, "real") for d in range(nd)]
        kw = dict(spin_symmetry_by_structure=kind == "restricted", fixed_magnetization=kind != "general")
        cor = [toy_correction()(L, rows, cols, nT) for _ in range(nd)]
        if base == "Backflow":
            if "sym" in opts:
                kw["apply_symmetries"] = electron_syms(T)
            model = gmod.Backflow(hi, cor[0], orbitals=None if "noorb" in opts else HashableArray(orb[0]), **kw)
            mf = [np.zeros((rows, cols)) if "noorb" in opts else orb[0]]
        else:
            if "sym" in opts:
                kw["backflow_apply_symmetries"] = electron_syms(T)
                kw["jastrow_apply_symmetries"] = lambda x: jnp.take(x, jnp.asarray(T), axis=-1)
            model = gmod.BackflowJastrow(hi, tuple(HashableArray(o) for o in orb), tuple(cor), **kw)
            mf = orb

        def amp(v, c):
            up, dn = electrons(c)
            tot = 0
            for d in range(nd):
                W = leaf(v["params"], "toy", d)
                for t in range(nT):
                    A = mf[d] + sum(W[c[i], i, :, :, t] for i in range(L))
                    u, w = [T[k, t] for k in up], [T[k, t] for k in dn]
                    if kind == "general":
                        tot = tot + ref.det(A[u + [k + L for k in w], :])
                    elif kind == "restricted":
                        tot = tot + ref.det(A[u, :]) * ref.det(A[w, :])
                    else:
                        tot = tot + ref.det(A[u, : n[0]]) * ref.det(A[w, n[0]:])
            if base == "BackflowJastrow":
                tot = tot * np.exp(jastrow_log(leaf(v["params"], "kernel"), c, T))
            return tot

        return Entry(name, hi, model, amp, space, fast=base == "Backflow", scale=0.5)
    if base in ("PfaffianState", "ZeroMagnetizationPfaffian"):
        kw = {}
        if "sym" in opts:  # acts on spin-orbital positions 0 ... 2L-1
            S = np.concatenate([T, T + L], axis=0)
            kw["symmetries"] = electron_syms(S)
        else:
            S = ident(2 * L)
        rot, chars = np.array([0.0]), np.array([1.0])
        if "rot" in opts:
            rot, chars = np.array([0.3, 1.1, 2.0]), np.array([0.7, -0.4, 1.3])
            kw["S2_projection"] = (HashableArray(rot), HashableArray(chars))
        import GPSKet.models.pfaffian as gpf
        model = getattr(gpf, base)(L, dtype=dt, **kw)

        def amp(v, c):
            up, dn = electrons(c)
            y = up + [k + L for k in dn]
            tot = 0
            for a, ch in zip(rot, chars):
                if base == "PfaffianState":
                    F = leaf(v["params"], "F")
                else:
                    # pairing f between an up orbital rotated and a down orbital rotated by the angle about y
                    f = leaf(v["params"], "f")
                    co, si = np.cos(a / 2), np.sin(a / 2)
                    F = np.block([[-f * co * si, f * co * co], [-f * si * si, f * co * si]])
                for t in range(S.shape[1]):
                    pos = [S[k, t] for k in y]
                    A = F[np.ix_(pos, pos)]
                    tot = tot + ch * ref.pfaffian(A - A.T)
            return tot

        return Entry(name, hi, model, amp, space, electron_input=True)
    if base == "qGPS":
        kw = dict(syms=occ_syms(T)) if "sym" in opts else {}
        model = gmod.qGPS(hi, 2, dtype=dt, **kw)
        return Entry(name, hi, model, lambda v, c: np.exp(gps_log(leaf(v["params"], "epsilon"), c, T)), space, fast=True)
    if base == "SegGPS":
        model = gmod.SegGPS(hi, 2, dtype=dt)

        def amp(v, c):
            e = leaf(v["params"], "epsilon")
            tot = 0
            for m in range(e.shape[1]):
                pr, u, d = 1.0, 0, 0
                for i, o in enumerate(c):
                    pr = pr * e[o, m, i, u, d]
                    u += ref.has(c, i, 0)
                    d += ref.has(c, i, 1)
                tot = tot + pr
            return np.exp(tot)

        return Entry(name, hi, model, amp, space)
    if base == "PlaquetteqGPS":
        plaq = np.array([[a, (a + 1) % L] for a in range(L)]) if "pair" in opts else np.array([[0, 2, 1][:min(L, 3)], [1, 0, 2][:min(L, 3)]])
        kw = dict(syms=occ_syms(T)) if "sym" in opts else {}
        model = gmod.PlaquetteqGPS(hi, 2, HashableArray(plaq), dtype=dt, apply_fast_update=True, **kw)
        return Entry(name, hi, model, plaquette_amp(plaq, T, False), space, fast=True)
    raise ValueError(name)


def plaquette_amp(plaq, T, flip):
    def amp(v, c):
        e = leaf(v["params"], "epsilon")  # (D, P, M, K)
        tot = 0
        for t in range(T.shape[1]):
            copies = [[c[T[i, t]] for i in range(len(c))]]
            if flip:
                copies.append([1 - o for o in copies[0]])
            for x in copies:
                for pi in range(len(plaq)):
                    for m in range(e.shape[2]):
                        tot = tot + np.prod([e[x[s], pi, m, k] for k, s in enumerate(plaq[pi])])
        return np.exp(tot)
    return amp


_TOY = []


def toy_correction():
    """A backflow correction: a sum of one matrix per orbital and occupancy, with the cached-update interface."""
    if not _TOY:
        import flax.linen as nn

        class Toy(nn.Module):
            L: int
            rows: int
            cols: int
            T: int

            @nn.compact
            def __call__(self, x, cache_intermediates=False, update_sites=None):
                W = self.param("toy", nn.initializers.normal(), (4, self.L, self.rows, self.cols, self.T), jnp.complex128)
                x = jnp.asarray(x, jnp.int32)
                if update_sites is not None or cache_intermediates:
                    saved = self.variable("intermediates_cache", "toy_x", lambda: None)
                if update_sites is not None:
                    def one(conf, sites, occ):
                        for k in reversed(range(sites.shape[0])):
                            conf = conf.at[sites[k]].set(occ[k])
                        return conf
                    x = jax.vmap(one)(saved.value, update_sites, x)
                if cache_intermediates:
                    saved.value = x
                return sum(W[x[:, i], i] for i in range(self.L))

        _TOY.append(Toy)
    return _TOY[0]


# ---- spin models
def automorphisms(n, edges):
    """All site permutations which preserve the edge set, as columns."""
    es = {frozenset(e) for e in edges}
    cols = [p for p in itertools.permutations(range(n)) if {frozenset((p[a], p[b])) for a, b in edges} == es]
    return np.array(cols).T


def spin_entry(name, L, sz=None):
    parts = name.split("/")
    base, opts = parts[0], set(parts[1:])
    dt = jnp.float64 if "real" in opts else jnp.complex128
    HashableArray = nk.utils.HashableArray
    if "one" in opts:  # spin one: three local states
        hi = nk.hilbert.Spin(1, N=L)
        space = [tuple(s) for s in itertools.product((-2, 0, 2), repeat=L)]
        loc = lambda c: [(s + 2) // 2 for s in c]
    else:
        hi = nk.hilbert.Spin(0.5, N=L, total_sz=sz)
        space = ref.spins(L, sz)
        loc = lambda c: [(s + 1) // 2 for s in c]
    flip = "flip" in opts
    kw = {}
    T = ident(L)
    if "auto" in opts or flip:
        edges = [(i, (i + 1) % L) for i in range(L if L > 2 else 1)]
        if "star" in opts:
            edges = [(0, i) for i in range(1, L)]
        graph = nk.graph.Graph(edges=edges)
        kw["syms"] = gmod.get_sym_transformation_spin(graph, automorphisms="auto" in opts, spin_flip=flip)
        if "auto" in opts:
            T = automorphisms(L, edges)
    if base == "qGPS":
        out = None
        if "sumexp" in opts:  # projective symmetrisation: sum of the amplitudes of the copies
            kw["out_transformation"] = lambda a: jax.scipy.special.logsumexp(jnp.sum(a, axis=-2), axis=-1)
        model = gmod.qGPS(hi, 2, dtype=dt, **kw)

        def amp(v, c):
            e, x = leaf(v["params"], "epsilon"), loc(c)
            if "sumexp" not in opts:
                return np.exp(gps_log(e, x, T, flip))
            tot = 0
            for t in range(T.shape[1]):
                y = [x[T[i, t]] for i in range(L)]
                for z in [y] + ([[1 - o for o in y]] if flip else []):
                    tot = tot + np.exp(gps_log(e, z))
            return tot

        return Entry(name, hi, model, amp, space, loc=loc, fast=True)
    if base == "PlaquetteqGPS":
        plaq = np.array([[a, (a + 1) % L] for a in range(L)]) if "pair" in opts else np.array([[0, 2, 1], [1, 0, 2]])
        model = gmod.PlaquetteqGPS(hi, 2, HashableArray(plaq), dtype=dt, apply_fast_update=True, **kw)
        f = plaquette_amp(plaq, T, flip)
        return Entry(name, hi, model, lambda v, c: f(v, loc(c)), space, loc=loc, fast=True)
    if base == "SegGPS":
        model = gmod.SegGPS(hi, 2, dtype=dt)

        def amp(v, c):
            e, x = leaf(v["params"], "epsilon"), loc(c)
            tot = 0
            for m in range(e.shape[1]):
                pr, u, d = 1.0, 0, 0
                for i, o in enumerate(x):
                    pr = pr * e[o, m, i, u, d]
                    u += o == 1
                    d += o == 0
                tot = tot + pr
            return np.exp(tot)

        return Entry(name, hi, model, amp, space, loc=loc)
    raise ValueError(name)


def entry(p):
    if p["phys"] == "fermion":
        return fermion_entry(p["name"], p["L"], p["n"])
    return spin_entry(p["name"], p["L"], p.get("sz"))


# ---- autoregressive models
def electron_counters(n, L):
    """What a user supplies to keep electron numbers: counts per local state and the allowed continuations."""
    def count(x):
        x = jnp.asarray(x, jnp.int32)
        z = jnp.zeros_like(x)
        return jnp.stack([z, x & 1, (x & 2) // 2, z], axis=-1)

    def renorm(n_spins, hilbert, index):
        rest = [n[0] - n_spins[:, 1], n[1] - n_spins[:, 2]]
        left = L - index
        cols = []
        for d in range(4):
            ok = jnp.ones(n_spins.shape[0], bool)
            for s in (0, 1):
                r = rest[s] - ((d >> s) & 1)
                ok = ok & (r >= 0) & (r <= left - 1)
            cols.append(ok)
        return jnp.where(jnp.stack(cols, axis=-1), 0.0, -jnp.inf)

    return dict(count_spins=count, renormalize_log_psi=renorm)


def ar_entry(name, L, sector=None):
    """name: ARqGPS | ARqGPSModPhase | ARqGPSFull | ARqGPSModPhaseFull | ARPlaquetteqGPS with options
    real, elec (electrons), sites (per-site bond dimensions), sym, flip, raw (not normalised), pow1 / pow4, nofast, ring/window (plaquettes)"""
    parts = name.split("/")
    base, opts = parts[0], set(parts[1:])
    HashableArray = nk.utils.HashableArray
    dt = jnp.float64 if "real" in opts or "ModPhase" in base else jnp.complex128
    M = 2
    kw = dict(dtype=dt)
    if "elec" in opts:
        n = None if sector is None else tuple(sector)
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        space = ref.sector(L, n)
        everything = ref.sector(L, None)
        loc = lambda c: list(c)
        D = 4
        kw.update(electron_counters(n or (0, 0), L))  # the constraint is not used when the numbers are free

        def allowed(prefix, d):
            if n is None:
                return True
            for s in (0, 1):
                r = n[s] - sum((o >> s) & 1 for o in prefix) - ((d >> s) & 1)
                if r < 0 or r > L - len(prefix) - 1:
                    return False
            return True
    else:
        hi = nk.hilbert.Spin(0.5, N=L, total_sz=sector)
        space = ref.spins(L, sector)
        everything = ref.spins(L, None)
        loc = lambda c: [(s + 1) // 2 for s in c]
        D = 2

        def allowed(prefix, d):
            return sector is None or sum(1 for o in prefix if o == d) < L // 2

    pw = 1 if "pow1" in opts else 4 if "pow4" in opts else 2
    if pw != 2:
        kw["machine_pow"] = pw
    if "raw" in opts:
        kw["normalize"] = False
    T = translations(L) if "sym" in opts else ident(L)
    full = base in ("ARqGPSFull", "ARqGPSModPhaseFull")
    flip = "flip" in opts  # acts on the raw values +-1
    if "sym" in opts or flip:
        P = np.asarray(T)
        inv = np.zeros_like(P)
        for t in range(P.shape[1]):
            inv[P[:, t], t] = np.arange(L)
        Pj, Ij = jnp.asarray(P), jnp.asarray(inv)

        def sym(x):
            out = jnp.take(x, Pj, axis=-1)
            return jnp.concatenate([out, -out], axis=-1) if flip else out

        def inv_sym(occ, sites):
            o = jnp.tile(jnp.expand_dims(occ, -1), P.shape[1])
            s = Ij[sites]
            return (jnp.concatenate([o, -o], axis=-1), jnp.concatenate([s, s], axis=-1)) if flip else (o, s)

        kw["apply_symmetries"] = (sym, inv_sym) if full else sym
    if full and "nofast" in opts:
        kw["apply_fast_update"] = False
    args = [hi, M]
    if "sites" in opts:
        args[1] = HashableArray(np.array([1 + (i % 3) for i in range(L)]))
    if base == "ARPlaquetteqGPS":
        if "window" in opts:  # at most the two preceding sites
            plaq = np.array([[i, (i - 1) % L, (i - 2) % L] + [(i - k) % L for k in range(3, L)] for i in range(L)])[:, :L]
            mask = np.array([[0] + [1 if k <= 2 and i - k >= 0 else 0 for k in range(1, L)] for i in range(L)])
        else:
            plaq = np.array([[(i - k) % L for k in range(L)] for i in range(L)])
            mask = np.where(plaq >= np.arange(L)[:, None], 0, 1)
        args += [HashableArray(plaq), HashableArray(mask)]
    model = getattr(gmod, base)(*args, **kw)

    def conditional(par, prefix):
        """log amplitudes of the next local state given the prefix (before normalisation)"""
        i = len(prefix)
        if base in ("ARqGPS", "ARqGPSModPhase"):
            e = np.asarray(par["epsilon"])
            ctx = np.prod([e[o, :, j] for j, o in enumerate(prefix)], axis=0) if i else np.ones(e.shape[1])
            out = e[:, :, i] @ ctx
        elif base == "ARPlaquetteqGPS":
            e = np.asarray(par["epsilon"])
            ctx = np.ones(e.shape[1], dtype=e.dtype)
            for k in range(L):
                if mask[i, k]:
                    ctx = ctx * e[prefix[plaq[i, k]], :, k]
            out = e[:, :, 0] @ ctx
        else:
            if "sites" in opts:
                e = np.asarray(par["epsilon_%d" % i])
            else:
                low = i * (i + 1) // 2
                e = np.asarray(par["epsilon"])[:, :, low:low + i + 1]
            ctx = np.prod([e[o, :, j] for j, o in enumerate(prefix)], axis=0) if i else np.ones(e.shape[1])
            out = e[:, :, i] @ ctx
        ok = np.array([allowed(prefix, d) for d in range(D)])
        if "raw" not in opts:
            top = np.max(np.real(out)[ok])
            out = out - top - np.log(np.sum(np.exp(pw * (np.real(out) - top))[ok])) / pw
        p = np.where(ok, np.exp(np.where(ok, pw * np.real(out), 0.0)), 0.0)
        return out, p, ok

    def one(par, x):
        tot = 0.0
        for i in range(L):
            out, p, ok = conditional(par, x[:i])
            if not ok[x[i]]:
                return None
            tot = tot + out[x[i]]
        return tot

    def amp(v, c):
        par = v["params"]
        logs = []
        for t in range(T.shape[1]):
            y = [c[T[i, t]] for i in range(L)]
            for z in [y] + ([[-s for s in y]] if flip else []):
                logs.append(one(par, loc(z)))
        mod = np.mean([0.0 if l is None else np.exp(pw * np.real(l)) for l in logs]) ** (1 / pw)
        ph = sum(0.0 if l is None else np.exp(1j * np.imag(l)) for l in logs)
        out = mod * np.exp(1j * np.angle(ph))
        if "ModPhase" in base:
            e = leaf(par, "epsilon") if "sites" in opts else [np.asarray(par[k]["epsilon"]) for k in par if hasattr(par[k], "items")][0]
            out = out * np.exp(1j * gps_log(e, loc(c)))
        return out

    en = Entry(name, hi, model, amp, space, loc=loc, fast=full and "nofast" not in opts)
    en.everything, en.conditional, en.pw, en.D, en.opts = everything, conditional, pw, D, opts
    en.variables = lambda seed=0: ar_variables(en, seed)
    return en


def ar_variables(e, seed):
    v = flax.core.unfreeze(e.model.init(jax.random.PRNGKey(1), e.inputs(e.space[:1])))
    v["params"] = fill(v["params"], seed, scale=e.scale)
    return v
