"""C11: the J1-J2 builder produces the Heisenberg model on the lattice it was asked for."""
import itertools

import numpy as np

from mc import ref, spinref
from mc.heavy import *

RULE = ("a state is (lattice, couplings, sector, configuration) whose row of the Hamiltonian was compared with the explicit "
        "sum over bonds; a transition is one non-zero matrix element; a trace is one constructed operator")
BOUNDS = dict(
    quick="chains of 3-8 and grids up to 3x3/2x4 sites, open, periodic and mixed, J1 in {1, 0.7}, J2 in {0, 0.5, -0.3}, sign rule "
          "default/True/False/pair, several magnetisation sectors, both evaluation modes; lattices of 12-36 sites (6x6, 4x6, 5x4, 4x5, 7x4, 4x4, chains of 12 and 15) with one or two reversed spins",
    thorough="as quick with chains up to 10, 3x4 and 4x3 grids, all sectors of the small lattices",
)
ASSUMPTIONS = ["periodic directions have at least three sites (four with J2 on chains); the sign rule needs a bipartite lattice",
               "a boolean sign rule concerns nearest neighbours (second neighbours share a sublattice)"]


def cases(tier):
    T = tier == "thorough"
    out = []
    lats = [(L, None, pbc) for L in range(3, 11 if T else 9) for pbc in (True, False)]
    lats += [(2, None, False), (2, 2, False), (3, 2, False), (2, 3, False), (3, 3, False), (3, 3, True), (2, 4, False)]
    if T:
        lats += [(3, 4, False), (4, 3, False), (3, 4, True)]
    for Lx, Ly in [(3, 2), (4, 2), (3, 3)] + ([(4, 3), (5, 2)] if T else []):
        lats += [(Lx, Ly, [True, False])] + ([(Lx, Ly, [False, True])] if Ly > 2 else [(Ly, Lx, [False, True])])
    for Lx, Ly, pbc in lats:
        if isinstance(pbc, list):
            bip = not (pbc[0] and Lx % 2 or pbc[1] and Ly % 2)
        else:
            bip = not (pbc and (Lx % 2 or (Ly or 0) % 2))
        out.append(("%sx%s/%s" % (Lx, Ly, "mixed%s%s" % tuple(pbc) if isinstance(pbc, list) else "pbc" if pbc else "obc"), dict(Lx=Lx, Ly=Ly, pbc=pbc, bip=bip, T=T)))
    wide = [(4, 4, True), (6, 6, True), (4, 6, True), (5, 4, False), (4, 5, [True, False]), (7, 4, [False, True]), (12, None, True), (15, None, False)]
    for Lx, Ly, pbc in wide + ([(8, 8, True), (10, 4, True), (24, None, True), (5, 5, True)] if T else []):
        bip = not (pbc is True and (Lx % 2 or (Ly or 0) % 2))
        n = Lx * (Ly or 1)
        out.append(("wide/%sx%s/%s" % (Lx, Ly, pbc), dict(Lx=Lx, Ly=Ly, pbc=pbc, bip=bip, T=False, secs=[n / 2 - 1, 1 - n / 2] + ([n / 2 - 2] if n <= 16 else []))))
    return sorted(out, key=lambda c: -c[1]["Lx"] * (c[1]["Ly"] or 1))


def run(p, ctx):
    Lx, Ly, pbc = p["Lx"], p["Ly"], p["pbc"]
    n = Lx * (Ly or 1)
    secs = [0.0, 1.0] if n % 2 == 0 else [0.5, -0.5]
    if p.get("secs"):
        secs = p["secs"]  # few flipped spins see every bond of a large lattice
    elif n <= 6:
        secs += [None, n / 2 - 1]
    j2 = [0.0, 0.5, -0.3]
    if Ly is None and pbc and Lx < 4 or n == 2:
        j2 = [0.0]
    full = n <= 6 or p["T"]
    for J1 in (1.0, 0.7):
        for J2 in j2:
            rules = ["default", True, False] if p["bip"] else [False]
            if J2 and p["bip"]:
                rules.append((True, False))
            for sr in rules:
                for sz in secs:
                    for fly in (False, True):
                        if not full and (J1, fly) not in ((1.0, False), (0.7, True)):
                            continue
                        kw = dict(Ly=Ly, pbc=pbc, J1=J1, J2=J2, total_sz=sz)
                        if sr != "default":
                            kw["sign_rule"] = sr
                        op = gham.get_J1_J2_Hamiltonian(Lx, on_the_fly_en=fly, **kw)
                        basis, H = spinref.j1j2(Lx, **kw)
                        hi = op.hilbert
                        states = [tuple(int(v) for v in s) for s in np.asarray(hi.all_states())]
                        ctx.require(sorted(states) == sorted(basis) and len(states) == len(basis), "Hilbert space", kw=kw)
                        index = {s: k for k, s in enumerate(basis)}
                        perm = [index[s] for s in states]
                        got = np.asarray(op.to_sparse().todense()) if n > 6 else np.asarray(op.to_dense())
                        ctx.close(got, H[np.ix_(perm, perm)], "Hamiltonian", kw=kw, fly=fly)
                        for s in states:
                            ctx.state((repr(sorted(kw.items(), key=str)), fly, s))
                        ctx.trans(np.count_nonzero(got))
                        ctx.trace()
    if p["bip"] and n <= 9:  # defaults
        if n % 2 == 0:
            op = gham.get_J1_J2_Hamiltonian(Lx, Ly, pbc=pbc)
            basis, H = spinref.j1j2(Lx, Ly, pbc=pbc)
            states = [tuple(int(v) for v in s) for s in np.asarray(op.hilbert.all_states())]
            perm = [{s: k for k, s in enumerate(basis)}[s] for s in states]
            ctx.close(op.to_dense(), H[np.ix_(perm, perm)], "default Hamiltonian")
    ctx.sample(lattice=[Lx, Ly, pbc])
