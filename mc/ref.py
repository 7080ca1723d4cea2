"""Reference models: deliberately boring, explicit and independent of the code under test."""
import itertools
import math

import numpy as np
import scipy.sparse as sp


# ---------------------------------------------------------------- fermions
def fock(L):
    """All occupancies of L orbitals; 0 empty, 1 up, 2 down, 3 both."""
    return [tuple(c) for c in itertools.product(range(4), repeat=L)]


def sector(L, n_elec):
    if n_elec is None:
        return fock(L)
    out = []
    for up in itertools.combinations(range(L), n_elec[0]):
        for dn in itertools.combinations(range(L), n_elec[1]):
            out.append(tuple((k in up) + 2 * (k in dn) for k in range(L)))
    return sorted(out)


def count(c):
    return (sum(1 for o in c if o in (1, 3)), sum(1 for o in c if o in (2, 3)))


def has(c, site, spin):
    return c[site] in ((1, 3) if spin == 0 else (2, 3))


def flip(c, site, spin):
    c = list(c)
    c[site] ^= 1 << spin
    return tuple(c)


def sign_before(c, site, spin):
    """Jordan-Wigner sign for the mode order 0up 1up ... 0down 1down ..."""
    n = sum(has(c, k, 0) for k in range(len(c) if spin == 1 else site))
    if spin == 1:
        n += sum(has(c, k, 1) for k in range(site))
    return -1 if n % 2 else 1


_ANN = {}


def annihilators(L):
    """{(site, spin): matrix of the annihilation operator on the full Fock space}"""
    if L not in _ANN:
        basis = fock(L)
        index = {c: i for i, c in enumerate(basis)}
        ops = {}
        for site in range(L):
            for spin in (0, 1):
                r, cl, v = [], [], []
                for c in basis:
                    if has(c, site, spin):
                        r.append(index[flip(c, site, spin)])
                        cl.append(index[c])
                        v.append(float(sign_before(c, site, spin)))
                ops[site, spin] = sp.csr_matrix((v, (r, cl)), shape=(len(basis),) * 2)
        _ANN[L] = ops
    return _ANN[L]


def one_body(L, h):
    c = annihilators(L)
    H = sp.csr_matrix((4**L, 4**L), dtype=complex)
    for p in range(L):
        for q in range(L):
            if h[p, q] != 0:
                for s in (0, 1):
                    H = H + h[p, q] * (c[p, s].T @ c[q, s])
    return H


def two_body(L, eri):
    """1/2 sum (pq|rs) c+_p c+_r c_s c_q"""
    c = annihilators(L)
    H = sp.csr_matrix((4**L, 4**L), dtype=complex)
    for p, q, r, s in zip(*np.nonzero(eri)):
        for a in (0, 1):
            for b in (0, 1):
                H = H + 0.5 * eri[p, q, r, s] * (c[p, a].T @ c[r, b].T @ c[s, b] @ c[q, a])
    return H


def hubbard(L, edges, t, U):
    c = annihilators(L)
    H = sp.csr_matrix((4**L, 4**L))
    for (a, b), tt in zip(edges, t):
        for s in (0, 1):
            hop = c[a, s].T @ c[b, s]
            H = H - tt * (hop + hop.T)
    for i in range(L):
        n = [c[i, s].T @ c[i, s] for s in (0, 1)]
        H = H + U * (n[0] @ n[1])
    return H


def restrict(H, L, basis):
    index = {c: i for i, c in enumerate(fock(L))}
    sel = [index[tuple(int(v) for v in c)] for c in basis]
    return np.asarray(H[sel, :][:, sel].todense())


def eri_classes(L):
    """The 8-fold symmetric unit two-electron integrals: their span is all real integrals."""
    seen, out = set(), []
    for idx in itertools.product(range(L), repeat=4):
        p, q, r, s = idx
        orbit = {(p, q, r, s), (q, p, r, s), (p, q, s, r), (q, p, s, r),
                 (r, s, p, q), (s, r, p, q), (r, s, q, p), (s, r, q, p)}
        key = min(orbit)
        if key not in seen:
            seen.add(key)
            e = np.zeros((L,) * 4)
            for o in orbit:
                e[o] = 1.0
            out.append((key, e))
    return out


def h_classes(L):
    out = []
    for p in range(L):
        for q in range(p, L):
            h = np.zeros((L, L))
            h[p, q] = h[q, p] = 1.0
            out.append(((p, q), h))
    return out


def generic_integrals(L, seed=0):
    rng = np.random.RandomState(77 + seed)
    h = np.zeros((L, L))
    for _, u in h_classes(L):
        h += (0.3 + rng.rand()) * rng.choice([-1, 1]) * u
    eri = np.zeros((L,) * 4)
    for _, u in eri_classes(L):
        eri += (0.2 + rng.rand()) * rng.choice([-1, 1]) * u
    return h, eri


# ---------------------------------------------------------------- spins
def spins(L, total_sz=None):
    """All spin configurations (-1 down, +1 up), optionally of a fixed total sz."""
    if total_sz is None:
        return list(itertools.product((-1, 1), repeat=L))
    up, odd = divmod(L + round(2 * total_sz), 2)
    if odd or not 0 <= up <= L:
        return []
    return sorted(tuple(1 if i in c else -1 for i in range(L)) for c in map(set, itertools.combinations(range(L), up)))


# ---------------------------------------------------------------- linear algebra
def det(M):
    """Leibniz expansion (no pivoting, no special cases); beyond 5x5 the library of the reference."""
    n = M.shape[0]
    if n > 5:
        return np.linalg.det(np.asarray(M).astype(complex))
    tot = 0.0
    for perm in itertools.permutations(range(n)):
        sgn = perm_sign(perm)
        prod = 1.0
        for i, j in enumerate(perm):
            prod = prod * M[i, j]
        tot = tot + sgn * prod
    return tot


def perm_sign(perm):
    s = 1
    perm = list(perm)
    for i in range(len(perm)):
        for j in range(i + 1, len(perm)):
            if perm[i] > perm[j]:
                s = -s
    return s


def pfaffian(A):
    n = A.shape[0]
    if n == 0:
        return 1.0
    if n % 2:
        return 0.0
    tot = 0.0
    for j in range(1, n):
        rest = [k for k in range(n) if k not in (0, j)]
        tot = tot + (-1) ** (j - 1) * A[0, j] * pfaffian(A[np.ix_(rest, rest)])
    return tot


# ---------------------------------------------------------------- fermions, without matrices
def apply_string(c, ops):
    """Applies [(site, spin, create), ...] (rightmost first) to a configuration: (sign, result) or None."""
    sgn = 1
    for site, spin, create in reversed(ops):
        if has(c, site, spin) == create:
            return None
        sgn *= sign_before(c, site, spin)
        c = flip(c, site, spin)
    return sgn, c


def hubbard_row(c, edges, t, U):
    out = {c: U * sum(1 for o in c if o == 3)}
    for (a, b), tt in zip(edges, t):
        for s in (0, 1):
            for x, y in ((a, b), (b, a)):
                r = apply_string(c, [(x, s, True), (y, s, False)])
                if r:
                    out[r[1]] = out.get(r[1], 0.0) - tt * r[0]
    return out


def abinitio_row(c, h, eri):
    L = len(c)
    out = {c: 0.0}
    for p, q in zip(*np.nonzero(h)):
        for s in (0, 1):
            r = apply_string(c, [(p, s, True), (q, s, False)])
            if r:
                out[r[1]] = out.get(r[1], 0.0) + h[p, q] * r[0]
    occ = [[k for k in range(L) if has(c, k, s)] for s in (0, 1)]
    for a in (0, 1):
        for b in (0, 1):
            for q in occ[a]:
                for s in occ[b]:
                    for p in range(L):
                        for r_ in range(L):
                            v = eri[p, q, r_, s]
                            if v == 0:
                                continue
                            r = apply_string(c, [(p, a, True), (r_, b, True), (s, b, False), (q, a, False)])
                            if r:
                                out[r[1]] = out.get(r[1], 0.0) + 0.5 * v * r[0]
    return out


def rows_to_matrix(rows, basis):
    index = {tuple(int(v) for v in c): i for i, c in enumerate(basis)}
    M = np.zeros((len(index), len(index)), dtype=complex)
    for i, row in enumerate(rows):
        for c, v in row.items():
            M[i, index[c]] += v
    return M
