"""Explicit spin Hamiltonians."""
import itertools

import numpy as np

from mc import ref


def lattice_bonds(Lx, Ly=None, pbc=True):
    """Site coordinates and the bonds at the two smallest distances of the (periodic) lattice."""
    dims = [Lx] if Ly is None else [Lx, Ly]
    pbc = list(pbc) if isinstance(pbc, (list, tuple)) else [pbc] * len(dims)
    sites = list(itertools.product(*[range(d) for d in dims]))
    pairs = {}
    for i, j in itertools.combinations(range(len(sites)), 2):
        d2 = 0
        for a, b, n, periodic in zip(sites[i], sites[j], dims, pbc):
            d = abs(a - b)
            if periodic:
                d = min(d, n - d)
            d2 += d * d
        pairs.setdefault(d2, []).append((i, j))
    keys = sorted(pairs)
    return [pairs[k] for k in keys[:2]]


def j1j2(Lx, Ly=None, J1=1.0, J2=0.0, sign_rule=True, total_sz=0.0, pbc=True):
    """(basis, matrix) of sum_b J_b S.S; with a sign rule the exchange of that bond order is reversed."""
    n = Lx * (Ly or 1)
    basis = ref.spins(n, total_sz)
    index = {s: k for k, s in enumerate(basis)}
    bonds = lattice_bonds(Lx, Ly, pbc)
    if isinstance(sign_rule, bool):
        sign_rule = (sign_rule, False)
    H = np.zeros((len(basis),) * 2)
    orders = [(J1, sign_rule[0], bonds[0])]
    if J2 != 0:
        orders.append((J2, sign_rule[1], bonds[1]))
    for J, sr, bs in orders:
        for i, j in bs:
            for s in basis:
                H[index[s], index[s]] += J * s[i] * s[j] / 4.0
                if s[i] != s[j]:
                    f = list(s)
                    f[i], f[j] = f[j], f[i]
                    H[index[tuple(f)], index[s]] += (-1 if sr else 1) * J / 2.0
    return basis, H
