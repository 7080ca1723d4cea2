"""C01: fermionic Hamiltonians have exactly their second-quantised matrix elements."""
import itertools

import numpy as np

from mc import ref
from mc.core import Violation
from mc.heavy import *

RULE = ("a state is (operator, configuration) whose row of matrix elements was compared with the explicit "
        "second-quantised operator; a transition is one connected configuration the code delivered; a trace is one "
        "complete operator (all rows, through all query interfaces)")
BOUNDS = dict(
    quick="Hubbard: every edge list over 1-3 orbitals (each pair absent / either orientation / twice), every single edge, the "
          "ring and the complete graph over 4, chains of up to 17 with second neighbours, scalar and "
          "per-edge hopping, U in {0, 1.7}, single edges also with couplings scaled by 1e-10, 1e10 and -1, the unconstrained space and every electron-number sector; ab initio: every "
          "unit integral of the 8-fold symmetric basis over 1-3 orbitals plus a generic sum, also scaled by 1e-10 and 1e10, every sector; generic integrals over 4 orbitals in "
          "every sector and over 5-6 orbitals in four sectors",
    thorough="as quick, with 4 orbitals for the edge subsets and the integral basis, every sector of 5 orbitals and sectors of "
             "6-10 orbitals for generic integrals",
)
ASSUMPTIONS = [
    "modes are ordered all up orbitals first, then all down orbitals",
    "two-electron integrals carry the 8-fold symmetry of real orbitals; no self-loop edges",
    "linearity in the integrals: agreement on a basis of the integrals gives agreement on all integrals (the generic sum guards the linearity)",
]


def edge_lists(L, full):
    pairs = list(itertools.combinations(range(L), 2))
    opts = ["-", "f", "b", "ff", "fb"] if full else ["-", "f", "b"]
    for pick in itertools.product(opts, repeat=len(pairs)):
        edges = []
        for (a, b), o in zip(pairs, pick):
            edges += [(a, b) if ch == "f" else (b, a) for ch in o if ch != "-"]
        yield "".join(o + "." for o in pick), edges


def cases(tier):
    out = []
    Ls = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for L in Ls:
        lists = list(edge_lists(L, L < 4))
        secs = [None] + list(itertools.product(range(L + 1), repeat=2))
        step = 40 if L < 4 else 60
        for k in range(0, len(lists), step):
            out.append(("hubbard/L%d/%d" % (L, k), dict(kind="hubbard", L=L, lists=lists[k:k + step], secs=secs)))
    for L in Ls:
        for s in itertools.product(range(L + 1), repeat=2):
            out.append(("abinitio/L%d/n%d%d" % ((L,) + s), dict(kind="abinitio", L=L, n=s, unit=True)))
    if tier == "quick":
        for s in itertools.product(range(5), repeat=2):
            out.append(("abinitio/L4/n%d%d" % s, dict(kind="abinitio", L=4, n=s, unit=False)))
        pairs = list(itertools.combinations(range(4), 2))
        lists = [("%d%d" % e, [e]) for e in pairs] + [("%d%d" % e, [e[::-1]]) for e in pairs]
        lists += [("complete", pairs), ("complete'", [e[::-1] for e in pairs[::-1]]), ("ring", [(0, 1), (1, 2), (2, 3), (3, 0)])]
        secs = [None] + list(itertools.product(range(5), repeat=2))
        for k in range(0, len(lists), 3):
            out.append(("hubbard/L4/%d" % k, dict(kind="hubbard", L=4, lists=lists[k:k + 3], secs=secs)))
    big = [(5, (2, 2)), (5, (3, 2)), (6, (2, 1)), (6, (1, 2))]
    if tier == "thorough":
        big += [(5, s) for s in itertools.product(range(6), repeat=2) if s not in ((2, 2), (3, 2))]
        big += [(6, (3, 3)), (7, (2, 2)), (8, (1, 2)), (10, (1, 1))]
    for L, s in big:
        out.append(("abinitio/L%d/n%d%d" % ((L,) + s), dict(kind="abinitio", L=L, n=s, unit=False)))
    for L, s in [(8, (2, 1)), (10, (1, 2)), (9, (8, 1)), (17, (1, 1))] + ([(12, (2, 2)), (18, (1, 17))] if tier == "thorough" else []):
        out.append(("hubbard/chain%d/n%d_%d" % ((L,) + s), dict(kind="chain", L=L, n=s)))
    for L in (1, 2, 3, 4):
        out.append(("hop/L%d" % L, dict(kind="hop", L=L)))
    return sorted(out, key=lambda c: -c[1]["L"])


def check_operator(op, hi, L, basis, Href, ctx, tag, deep, scale=1.0):
    Href = Href / scale
    basis = np.asarray(basis, dtype=np.uint8).reshape(-1, L)
    n = len(basis)
    index = {tuple(int(v) for v in c): i for i, c in enumerate(basis)}

    def compare(x, sections, xp, mels, rows, how):
        sections = np.asarray(sections)
        ctx.require(sections[-1] == len(mels) == len(xp), "sections do not cover the delivered elements", op=tag, how=how)
        start = 0
        for k, row in enumerate(rows):
            got = np.zeros(n, dtype=complex)
            for j in range(start, sections[k]):
                m = mels[j]
                if m != 0:
                    key = tuple(int(v) for v in xp[j])
                    ctx.require(key in index, "left the Hilbert space", op=tag, x=basis[row], xp=key, mel=m)
                    got[index[key]] += m / scale
            ctx.trans(sections[k] - start)
            ctx.close(got, Href[row], "matrix elements", op=tag, x=basis[row], how=how)
            ctx.state((tag, row))
            start = sections[k]

    # the whole basis in one batch; each configuration alone; a batch in reverse order with repetitions
    batches = [("batch", list(range(n)))]
    if deep:
        batches += [("single", [r]) for r in range(n)]
        batches += [("reversed, repeated", [r for r in range(n)[::-1] for _ in (0, 1)])]
    for how, rows in batches:
        for dt in ((np.uint8, np.int64, np.float64) if how == "batch" and deep else (np.uint8,)):
            x = basis[rows].astype(dt)
            keep = x.copy()
            sections = np.zeros(len(rows), dtype=np.int64)
            xp, mels = op.get_conn_flattened(x, sections)
            ctx.require(np.array_equal(x, keep), "the operator changed its argument", op=tag)
            compare(x, sections, np.asarray(xp), np.asarray(mels), rows, how)
    xp, mels = op.get_conn_padded(basis)
    xp, mels = np.asarray(xp), np.asarray(mels)
    k = xp.shape[1]
    compare(basis, (np.arange(n) + 1) * k, xp.reshape(n * k, L), mels.reshape(-1), list(range(n)), "padded")
    if deep:
        for r in range(n):
            xp, mels = op.get_conn(basis[r])
            compare(basis[r:r + 1], [len(mels)], np.asarray(xp), np.asarray(mels), [r], "get_conn")
        ctx.close(op.to_dense() / scale, Href, "dense matrix", op=tag)
    ctx.require(op.is_hermitian is True or op.is_hermitian == True, "declared not hermitian", op=tag)  # noqa: E712
    ctx.close(Href, Href.conj().T, "reference is hermitian")
    ctx.trace()


def run(p, ctx):
    L = p["L"]
    if p["kind"] == "hubbard":
        for name, edges in p["lists"]:
            edges = [tuple(e) for e in edges]
            ts = [0.7 + 0.45 * k for k in range(len(edges))]
            variants = [("t=0.8 U=1.7", 0.8, [0.8] * len(edges), 1.7)]
            if edges:
                variants += [("per edge U=0", ts, ts, 0.0)]
                if len(edges) == 1:  # nothing is neglected, however small next to other terms or in itself
                    variants += [("t=%g U=%g" % (s * 0.8, s * 1.7), s * 0.8, [s * 0.8], s * 1.7) for s in (1e-10, 1e10, -1.0)]
            else:
                variants += [("U=0", 1.0, [], 0.0)]
            for vname, t, tref, U in variants:
                full = ref.hubbard(L, edges, tref, U)
                for n in p["secs"]:
                    n = None if n is None else tuple(n)
                    hi = FermionicDiscreteHilbert(L, n_elec=n)
                    basis = np.asarray(hi.all_states())
                    expected = set(ref.sector(L, n))
                    ctx.require(set(map(tuple, basis.tolist())) == expected and len(basis) == len(expected),
                                "basis enumeration", L=L, n=n)
                    cls = gham.FermiHubbard if vname.startswith("t") else gham.FermiHubbardOnTheFly
                    op = cls(hi, edges, U=U, t=t)
                    H = ref.restrict(full, L, basis)
                    check_operator(op, hi, L, basis, H, ctx, ("hubbard", name, vname, n),
                                   deep=(n is None and L < 4) or (len(edges) <= 1), scale=U / 1.7 if U else 1.0)
        ctx.sample(edges=p["lists"][-1][1])
    elif p["kind"] == "chain":
        n = tuple(p["n"])
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        basis = ref.sector(L, n)
        # periodic chain with second neighbours: hops over the whole system and to the last orbital
        edges = [(i, (i + 1) % L) for i in range(L)] + [((i + 2) % L, i) for i in range(L)]
        t = [0.5 + 0.1 * k for k in range(len(edges))]
        H = ref.rows_to_matrix([ref.hubbard_row(c, edges, t, 2.5) for c in basis], basis)
        check_operator(gham.FermiHubbard(hi, edges, U=2.5, t=t), hi, L, basis, H, ctx, ("chain", n), deep=False)
        ctx.sample(chain=L, sector=n, dim=len(basis))
    elif p["kind"] == "abinitio":
        n = tuple(p["n"])
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        basis = np.asarray(hi.all_states())
        zh, ze = np.zeros((L, L)), np.zeros((L,) * 4)
        todo = []
        if p["unit"]:
            todo += [(("h", k), h, ze) for k, h in ref.h_classes(L)]
            todo += [(("eri", k), zh, e) for k, e in ref.eri_classes(L)]
        todo.append((("generic", 0), *ref.generic_integrals(L, 0)))
        if p["unit"]:  # integrals of very small and very large magnitude: nothing is neglected
            h, eri = ref.generic_integrals(L, 1)
            todo += [(("scaled", s), s * h, s * eri) for s in (1e-10, 1e10, -1.0)]
        classes = [gham.AbInitioHamiltonian, gham.AbInitioHamiltonianOnTheFly, gham.AbInitioHamiltonianSparse]
        for tag, h, eri in todo:
            if L <= 4:
                H = ref.restrict(ref.one_body(L, h) + ref.two_body(L, eri), L, basis)
            else:
                rows = [tuple(c) for c in basis.tolist()]
                H = ref.rows_to_matrix([ref.abinitio_row(c, h, eri) for c in rows], rows)
            generic = tag[0] == "generic"
            scaled = tag[0] == "scaled"
            for cls in classes if generic or scaled else classes[:1]:
                keep = (h.copy(), eri.copy())
                op = cls(hi, h, eri)
                check_operator(op, hi, L, basis, H, ctx, (cls.__name__,) + tag + (n,), deep=generic,
                               scale=tag[1] if scaled else 1.0)
                ctx.require(np.array_equal(h, keep[0]) and np.array_equal(eri, keep[1]), "changed the integrals")
        ctx.sample(sector=n, integrals=len(todo))
    else:  # single hops, with and without precomputed cumulative electron counts
        from GPSKet.operator import fermion

        hop = getattr(fermion, "apply_hopping", None)
        if hop is None:
            return
        ann = ref.annihilators(L)
        basis = ref.fock(L)
        index = {c: i for i, c in enumerate(basis)}
        for spin in (0, 1):
            for a, b in itertools.product(range(L), repeat=2):
                M = np.asarray((ann[b, spin].T @ ann[a, spin]).todense())
                for c in basis:
                    cum = np.cumsum([has and 1 or 0 for has in (ref.has(c, k, spin) for k in range(L))])
                    for kw in (dict(), dict(cummulative_count=cum)):
                        x = np.array(c, dtype=np.uint8)
                        m = hop(a, b, x, 1 << spin, **kw)
                        col = M[:, index[c]]
                        nz = np.nonzero(col)[0]
                        if len(nz) == 0:
                            ctx.require(m == 0, "forbidden hop", x=c, hop=(a, b, spin), kw=bool(kw))
                            ctx.require(tuple(x.tolist()) == c, "forbidden hop moved an electron", x=c, hop=(a, b, spin))
                        else:
                            ctx.require(m == col[nz[0]], "hop sign", x=c, hop=(a, b, spin), got=m, kw=bool(kw))
                            ctx.require(tuple(x.tolist()) == basis[nz[0]], "hop target", x=c, hop=(a, b, spin))
                        ctx.trans()
                        ctx.outcome((int(m), a < b))
                    ctx.state((c, a, b, spin))
        ctx.trace()
