"""C18: the water data set: correct amplitudes after every crash, history and interleaving of generations."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc import crash, ref

RULE = ("a state is the contents of the data directory a call started from; a transition is one call of get_H2O_dataset on it; a trace is one crash, history of "
        "calls or interleaving followed to the end")
BOUNDS = dict(
    quick="the molecule in a minimal basis (7 orbitals, 441 configurations); every kill at a file operation and 16 lengths of every torn write, for each basis and method; "
          "every sequence of three calls out of eight; a second process run at every file operation of the first",
    thorough="as quick, and every second crash during the recovery from the first",
)
ASSUMPTIONS = ["a crash kills the process; data handed to the operating system survives", "pyscf's orbitals and integrals are taken as given",
               "the molecule is built in the STO-3G basis instead of 6-31G", "pyscf's CISD needs a helper adjusted for numpy 2"]

KEYS = [(b, m) for b in ("CANONICAL", "LOCAL", "BOYS", "SPLIT") for m in ("FCI",)] + [("CANONICAL", "CISD")]


def cases(tier):
    T = tier == "thorough"
    out = []
    for b, m in KEYS:
        out.append(("values/%s/%s" % (b, m), dict(kind="values", key=[b, m])))
        out.append(("crash/%s/%s" % (b, m), dict(kind="crash", key=[b, m], existing=False, T=T)))
        out.append(("crash-next/%s/%s" % (b, m), dict(kind="crash", key=[b, m], existing=True, T=T)))
    for i in range(4):
        out.append(("history/%d" % i, dict(kind="history", part=i)))
    for a, b in itertools.product((("CANONICAL", "FCI"), ("LOCAL", "FCI")), repeat=2):
        out.append(("interleaving/%s-%s/%s-%s" % (a + b), dict(kind="interleaving", a=list(a), b=list(b))))
    return out


def setup():
    from pyscf import gto
    from pyscf.ci import cisd

    if not hasattr(gto.Mole, "_mc_build"):
        gto.Mole._mc_build = gto.Mole.build

        def build(self, *a, **k):
            k.update(basis="sto-3g", verbose=0)
            return gto.Mole._mc_build(self, *a, **k)

        gto.Mole.build = build
        cisd._cp = lambda a: np.array(a, order="C")


def call(path, key, **kw):
    from GPSKet.datasets import get_H2O_dataset

    with contextlib.redirect_stdout(io.StringIO()):
        return get_H2O_dataset(basis=key[0], method=key[1], datapath=path, **kw)


_REF = {}


def orbitals(basis):
    """integrals and one-body density matrix of the exact state in an orbital basis"""
    from pyscf import ao2mo, gto, lo, scf

    if "mol" not in _REF:
        mol = gto.Mole()
        mol.build(atom=[["H", (0.0, 0.795, -0.454)], ["H", (0.0, -0.795, -0.454)], ["O", (0.0, 0.0, 0.113)]], unit="Angstrom")
        hf = scf.RHF(mol)
        with contextlib.redirect_stdout(io.StringIO()):
            hf.scf()
        _REF["mol"] = mol, hf
    mol, hf = _REF["mol"]
    C = hf.mo_coeff
    if basis == "LOCAL":
        C = lo.orth_ao(mol, "meta_lowdin")
    elif basis == "BOYS":
        loc = lo.Boys(mol, lo.orth_ao(mol, "meta_lowdin"))
        loc.init_guess = None
        C = loc.kernel()
    elif basis == "SPLIT":
        n = mol.nelectron // 2
        C = np.concatenate([lo.Boys(mol, C[:, :n]).kernel(), lo.Boys(mol, C[:, n:]).kernel()], axis=1)
    h1 = C.T @ hf.get_hcore() @ C
    h2 = ao2mo.restore(1, ao2mo.kernel(mol, C), C.shape[1])
    S = hf.get_ovlp()
    back = hf.mo_coeff.T @ S @ C  # canonical -> basis
    return h1, h2, back


def canonical():
    """exact states in the canonical basis: {(method): (basis list, vector)}"""
    if "can" not in _REF:
        h1, h2, _ = orbitals("CANONICAL")
        L = len(h1)
        space = [tuple(int(v) for v in c) for c in ref.sector(L, (5, 5))]
        H = ref.rows_to_matrix([ref.abinitio_row(c, h1, h2) for c in space], space).real
        assert np.allclose(H, H.T)
        w, v = np.linalg.eigh(H)
        hf = tuple([3] * 5 + [0] * (L - 5))
        keep = [i for i, c in enumerate(space) if sum(((a & 1) == 0) + ((a & 2) == 0) for a in c[:5]) <= 2]
        wc, vc = np.linalg.eigh(H[np.ix_(keep, keep)])
        ci = np.zeros(len(space))
        ci[keep] = vc[:, 0]
        assert w[1] - w[0] > 1e-3 and wc[1] - wc[0] > 1e-3
        _REF["can"] = space, dict(FCI=v[:, 0], CISD=ci), dict(FCI=w[0], CISD=wc[0]), H
    return _REF["can"]


def one_rdm(confs, amps):
    """<c+_p c_q> for spin up, from the amplitudes"""
    psi = {tuple(int(v) for v in c): a for c, a in zip(confs, amps)}
    L = len(confs[0])
    D = np.zeros((L, L))
    for c, a in psi.items():
        for p in range(L):
            for q in range(L):
                r = ref.apply_string(c, [(p, 0, True), (q, 0, False)])
                if r:
                    D[p, q] += r[0] * a * psi.get(r[1], 0.0)
    return D


def same(ctx, got, key, note):
    """the data set of a key, known good from the fresh generation"""
    confs, amps = _REF[tuple(key)]
    ctx.require(got[0].shape == confs.shape and got[1].shape == amps.shape, "size of the data set", shapes=(got[0].shape, got[1].shape), **note)
    a = {tuple(int(v) for v in c): x for c, x in zip(*got)}
    b = {tuple(int(v) for v in c): x for c, x in zip(confs, amps)}
    ctx.require(a.keys() == b.keys(), "configurations of the data set", **note)
    x, y = np.array([a[k] for k in b]), np.array([b[k] for k in b])
    ctx.close(x * np.sign(x @ y), y, "amplitudes of the data set", rtol=1e-4, atol=1e-4, **note)


def fresh(key):
    key = tuple(key)
    if key not in _REF:
        with crash.Scratch() as d:
            _REF[key] = call(d, key)
    return _REF[key]


def run(p, ctx):
    setup()
    dict(values=values, crash=crash_, history=history, interleaving=interleaving)[p["kind"]](p, ctx)


def values(p, ctx):
    """a fresh data set is the ground state"""
    basis, method = p["key"]
    space, vec, en, H = canonical()
    confs, amps = fresh(p["key"])
    cs = [tuple(int(v) for v in c) for c in confs]
    ctx.require(len(set(cs)) == len(cs) == len(space) and set(cs) == set(space), "every configuration once", n=len(cs))
    ctx.close(np.sum(np.abs(amps) ** 2), 1.0, "normalisation", rtol=1e-8)
    h1, h2, back = orbitals(basis)
    if basis in ("CANONICAL", "LOCAL"):
        Hb = H if basis == "CANONICAL" else ref.rows_to_matrix([ref.abinitio_row(c, h1, h2) for c in space], space).real
        order = {c: i for i, c in enumerate(cs)}
        x = amps[[order[c] for c in space]]
        if method == "FCI":
            e, v = np.linalg.eigh(Hb)
            e, v = e[0], v[:, 0]
        else:
            e, v = en["CISD"], vec["CISD"]
        ctx.close(x @ Hb @ x, e, "energy of the data set", rtol=1e-8, atol=1e-6)
        ctx.close(x * np.sign(x @ v), v, "amplitudes of the data set", rtol=1e-3, atol=2e-3 if method == "FCI" else 2e-3)
    # the density matrix rotates with the orbitals
    D0 = one_rdm(space, vec[method])
    D = one_rdm(cs, amps)
    ctx.close(np.sort(np.linalg.eigvalsh(D)), np.sort(np.linalg.eigvalsh(D0)), "natural occupations", rtol=1e-3, atol=1e-3)
    ctx.close(np.sort(np.diag(D)), np.sort(np.diag(back.T @ D0 @ back)), "occupations of the orbitals of the basis", rtol=1e-2, atol=5e-3)
    for n in (1, 2, 7, 100, len(cs), len(cs) + 5):
        with crash.Scratch() as d:
            for spelled in (basis, basis.lower()):
                c, a = call(d, (spelled, method), select_largest=n)
                k = min(n, len(cs))
                ctx.require(len(c) == len(a) == k and len({tuple(int(v) for v in x) for x in c}) == k, "number of selected configurations", n=n, found=len(c))
                ctx.close(np.sort(np.abs(a)), np.sort(np.abs(amps))[-k:], "the configurations with largest probability", rtol=1e-4, atol=1e-6, n=n)
                full = dict(zip(cs, amps))
                sel = np.array([full[tuple(int(v) for v in x)] for x in c])
                ctx.close(a * np.sign(a @ sel), sel, "amplitudes of the selected configurations", rtol=1e-4, atol=1e-6, n=n)
                ctx.trans()
        ctx.state(n)
    ctx.trace()
    ctx.sample(basis=basis, method=method, orbitals=len(h1), configurations=len(cs))


def crash_(p, ctx):
    key = p["key"]
    fresh(key)
    other = ["LOCAL" if key[0] != "LOCAL" else "BOYS", "FCI"]
    fresh(other)
    with crash.Scratch() as d:
        if p["existing"]:
            call(d, other)
        states, got = crash.crash_states(d, lambda: call(d, key))
        same(ctx, got, key, dict(dataset=key, directory="as left by %s" % other if p["existing"] else "missing"))
        for what, snap in states:
            note = dict(dataset=key, crash=what)
            crash.write(d, snap)
            ctx.state(what)
            if p["T"] and not p["existing"]:
                second, got = crash.crash_states(d, lambda: call(d, key))
                same(ctx, got, key, note)
                for what2, snap2 in second[1:]:
                    crash.write(d, snap2)
                    same(ctx, call(d, key), key, dict(note, second=what2))
                    ctx.state((what, what2))
                    ctx.trans()
                    ctx.trace()
            else:
                same(ctx, call(d, key), key, note)
            same(ctx, call(d, key), key, dict(note, after="recovery"))
            ctx.trans(2)
            same(ctx, call(d, other), other, dict(note, after="recovery"))
            ctx.trace()
    ctx.sample(dataset=key, crash_states=len(states))


def history(p, ctx):
    ops = [(k, n) for k in KEYS[:4] for n in (None, 3)][:7] + [(KEYS[4], None)]
    for k in KEYS:
        fresh(k)
    todo = list(itertools.product(ops, repeat=3))[p["part"]::4]
    for h in todo:
        with crash.Scratch() as d:
            for i, (k, n) in enumerate(h):
                got = call(d, k, select_largest=n)
                note = dict(history=h, step=i)
                if n is None:
                    same(ctx, got, k, note)
                else:
                    ctx.close(np.sort(np.abs(got[1])), np.sort(np.abs(_REF[tuple(k)][1]))[-n:], "largest amplitudes", rtol=1e-3, atol=1e-4, **note)
                ctx.trans()
                # the caller may do as it likes with what it got
                got[0][...] = 0
                got[1][...] = 0
        ctx.state(h)
        ctx.trace()
    ctx.sample(histories=len(todo))


def interleaving(p, ctx):
    """process B runs to its end at the k-th file operation of process A"""
    a, b = p["a"], p["b"]
    fresh(a), fresh(b)
    k = 0
    pid = os.getpid
    while True:
        with crash.Scratch() as d:
            seen = []
            inner = []

            def at(event, args):
                seen.append((event, os.path.basename(args[0])))
                if len(seen) == k + 1:
                    os.getpid = os.getppid  # another process
                    try:
                        inner.append(call(d, b))
                    finally:
                        os.getpid = pid

            note = dict(process_a=a, process_b=b, operation=k)
            try:
                got = crash.watched(d, at, lambda: call(d, a))
            except OSError as e:
                ctx.require(False, "a process fails because another one generates a data set", error=repr(e), at=seen[-1], **note)
            if not inner:
                break
            note["at"] = seen[k]
            same(ctx, got, a, note)
            same(ctx, inner[0], b, note)
            for key in (a, b):
                same(ctx, call(d, key), key, dict(note, after="both"))
                ctx.trans()
            ctx.state(k)
            ctx.trace()
        k += 1
    ctx.require(k >= 3, "file operations are observed", operations=k)
    ctx.sample(process_a=a, process_b=b, operations=k)

