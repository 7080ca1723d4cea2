"""C12: states of unique and of stratified samples weigh every configuration correctly."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is the bookkeeping of a variational state after a sequence of drawn configurations; a transition is one drawn "
        "configuration; a trace is one complete sampling history replayed through the real state, whose samples, weights and (where stated) estimates were "
        "compared with the reference model")
BOUNDS = dict(
    quick="every sequence of up to 6 drawn configurations of one and two spins, batches of 1-4 draws on one and two chains, 1-4 requested samples, step limits "
          "1-3 and none; estimates and gradients for every distinct weighted sample set of three; every sequence of up to 3 proposals and "
          "initial and random draws for stratified states with every deterministic set of two spins",
    thorough="as quick with up to 8 draws, and four proposals",
)
ASSUMPTIONS = ["the sampler is the environment: it may deliver any sequence of configurations", "max_sampling_steps is at least one",
               "the deterministic set has the data type of the sampler"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for L, depth in ((1, 6), (2, 6 if T else 5)):
        for chains in (1, 2):
            for b in (None, 1, 2, 3, 4):
                for n in (1, 2, 3, 4):
                    if n % chains or (b is not None and b % chains):
                        continue
                    for mx in (None, 1, 2, 3):
                        out.append(("counts/L%d/c%d/b%s/n%d/m%s" % (L, chains, b, n, mx),
                                    dict(kind="counts", L=L, chains=chains, b=b, n=n, mx=mx, depth=depth + (2 if T and L == 1 else 0))))
    for name in ("qGPS", "qGPS/real", "qGPS/auto/flip"):
        for chunk in (None, 1, 3):
            out.append(("estimates/%s/chunk%s" % (name, chunk), dict(kind="est", name=name, chunk=chunk)))
    for name, chunk in (("qGPS", None), ("Slater/unrestricted", None), ("qGPS", 3), ("SlaterqGPS/unrestricted", 1)):
        out.append(("estimates/ab-initio/%s/chunk%s" % (name, chunk), dict(kind="abinitio", name=name, chunk=chunk)))
    for k in range(1, 15):
        for norm in ("random", "sampled", "none"):
            out.append(("stratified/%d/%s" % (k, norm), dict(kind="strat", subset=k, norm=norm, T=T)))
    for norm in ("random", "sampled", "none"):
        out.append(("stratified/two chains/%s" % norm, dict(kind="strat", subset=6, norm=norm, chains=2, T=T)))
        out.append(("stratified/sweeps/%s" % norm, dict(kind="strat", subset=1, norm=norm, sweeps=2, discard=1, T=T)))
        out.append(("stratified/more random samples/%s" % norm, dict(kind="strat", subset=9, norm=norm, nrand=3 if norm == "random" else None, T=T)))
    return list(dict(out).items())


def reference(draws, b, n, mx):
    """the weighted set of the first draws which contain n distinct configurations; None while more draws are needed"""
    counts, taken, step = {}, 0, 0
    while True:
        if taken + b > len(draws):
            return None
        for c in draws[taken:taken + b]:
            if len(counts) >= n:
                break
            counts[c] = counts.get(c, 0) + 1
        taken += b
        step += 1
        if len(counts) >= n or (mx is not None and step >= mx):
            return counts, taken


def weighted(vs):
    s, w = vs.samples_with_counts
    s, w = np.asarray(s), np.asarray(w)
    return s, w


def hermitian(hi, n, seed=0):
    from mc.core import generic
    A = generic((2 ** n, 2 ** n), 11 + seed, "complex")
    return nk.operator.LocalOperator(hi, operators=[A + A.conj().T], acting_on=[list(range(n))]) if n > 1 else None


def local_energies(H, psi, index, configs):
    i = np.array([index[c] for c in configs])
    return (H[i] @ psi) / psi[i]


def jacobian(f, params):
    """derivatives of log psi of every sample with respect to the real and imaginary parts of the parameters (None for real ones)"""
    def along(unit):
        z = jax.tree_util.tree_map(lambda q: jnp.zeros(q.shape), params)
        g = lambda d: f(jax.tree_util.tree_map(lambda q, x: q + unit * x, params, d))
        re, im = jax.jacrev(lambda d: jnp.real(g(d)))(z), jax.jacrev(lambda d: jnp.imag(g(d)))(z)
        return [np.asarray(a) + 1j * np.asarray(b) for a, b in zip(jax.tree_util.tree_leaves(re), jax.tree_util.tree_leaves(im))]
    cplx = any(jnp.iscomplexobj(l) for l in jax.tree_util.tree_leaves(params))
    return along(1.0), along(1.0j) if cplx else None


def check_estimates(ctx, vs, e, v, ops, space, counts, note):
    index = {c: k for k, c in enumerate(space)}
    xs = e.inputs(space)
    lp = np.asarray(vs.log_value(xs), dtype=complex)
    psi = np.exp(lp - np.max(lp.real))
    f = lambda q: e.model.apply({**v, "params": q}, xs)
    Jx, Jy = jacobian(f, v["params"])
    w = np.array([counts.get(c, 0) for c in space], dtype=float)
    w = w / w.sum()
    for op, H in ops:
        E = (H @ psi) / psi
        mean = np.sum(w * E)
        var = np.sum(w * np.abs(E - mean) ** 2)
        st = vs.expect(op)
        ctx.close(complex(st.mean), mean, "expectation value", **note)
        ctx.close(float(np.real(st.variance)), var, "variance", **note)
        st, g = vs.expect_and_grad(op)
        ctx.close(complex(st.mean), mean, "expectation value along with the gradient", **note)

        def along(O):
            return np.real(np.tensordot((w * (E - mean)).conj(), O, axes=(0, 0)))

        for k, a in enumerate(jax.tree_util.tree_leaves(g)):
            want = 2 * along(Jx[k]) if Jy is None else along(Jx[k]) + 1j * along(Jy[k])
            ctx.close(np.asarray(a), want, "gradient", **note)
        loc = np.asarray(vs.local_estimators(op)).reshape(-1)
        s, c = weighted(vs)
        ctx.close(loc, [E[index[tuple(int(round(float(t))) for t in r)]] for r in s.reshape(-1, s.shape[-1])], "local estimators", **note)
        ctx.trans()


def run(p, ctx):
    from mc import scripted, zoo
    from GPSKet.vqs import MCStateUniqueSamples, MCStateStratifiedSampling

    Q, R = scripted.QUEUE, scripted.RANDOM
    if p["kind"] == "counts":
        L = p["L"]
        hi = scripted.ScriptedSpin(0.5, N=L)
        space = ref.spins(L)
        sa = scripted.make(hi, n_chains=p["chains"], sweep_size=1)
        R[:] = [space[0]] * 200
        m = gmod.qGPS(hi, 1)
        kw = {} if p["mx"] is None else dict(max_sampling_steps=p["mx"])
        if p["b"] is not None:
            kw["batch_size"] = p["b"]
        vs = MCStateUniqueSamples(sa, m, n_samples=p["n"], n_discard_per_chain=0, seed=0, **kw)
        b = p["b"] or p["n"]
        todo = [()]
        while todo:
            h = todo.pop()
            want = reference(h, b, p["n"], p["mx"])
            vs.reset()
            Q[:] = list(h)
            try:
                s, w = weighted(vs)
                done = True
            except scripted.OutOfScript:
                done = False
            ctx.trace()
            ctx.state(h)
            ctx.require(done == (want is not None), "when sampling stops", draws=h, stopped=done)
            if not done:
                if len(h) + b <= p["depth"] or len(h) < b:
                    for c in itertools.product(space, repeat=b):
                        todo.append(h + c)
                        ctx.trans(b)
                continue
            counts, taken = want
            ctx.require(len(Q) == len(h) - taken, "number of draws", draws=h)
            ctx.require(s.shape == (p["n"], L) and w.shape == (p["n"],), "shape of the samples", got=(s.shape, w.shape))
            got = {}
            for r, x in zip(s, w):
                if x != 0:
                    r = tuple(int(t) for t in r)
                    ctx.require(r not in got, "every configuration appears once", draws=h)
                    got[r] = float(x)
                else:
                    ctx.require(tuple(int(t) for t in r) in space, "padding with configurations of the space")
            tot = sum(counts.values())
            ctx.require(set(got) == set(counts), "the distinct configurations", draws=h, got=sorted(got), expected=sorted(counts))
            ctx.close([got[c] for c in counts], [counts[c] / tot for c in counts], "relative counts", draws=h)
            # asked again, nothing new is drawn; after a reset it is
            before = (s.copy(), w.copy())
            Q[:] = []
            s2, w2 = weighted(vs)
            ctx.require(np.array_equal(s2, before[0]) and np.array_equal(w2, before[1]), "samples stay until the state changes")
            ctx.require(np.array_equal(np.asarray(vs.samples), s), "samples without their counts")
            ctx.outcome((tuple(sorted(counts.items()))))
        ctx.sample(n=p["n"], batch=b, limit=p["mx"])
        return

    if p["kind"] in ("est", "abinitio"):
        if p["kind"] == "est":
            L = 3
            hi = scripted.ScriptedSpin(0.5, N=L)
            space = ref.spins(L)
            e = zoo.spin_entry(p["name"], L)
            H1 = nk.operator.Ising(hi, nk.graph.Chain(L), h=0.7)
            from mc.core import generic
            A = generic((4, 4), 5, "complex")
            H2 = nk.operator.LocalOperator(hi, operators=[A + A.conj().T, np.array([[0.3, 1.2 - 0.4j], [1.2 + 0.4j, -1.0]])], acting_on=[[0, 2], [1]], dtype=complex)
            order = [tuple(int(round(t)) for t in r) for r in np.asarray(hi.all_states())]
            dt = np.float64
        else:
            L, n = 2, (1, 1)
            e = zoo.fermion_entry(p["name"], L, n)
            hi, space = e.hi, e.space
            from mc.core import generic
            t = generic((2, 2), 1, "real")
            t = t + t.T
            eri = np.zeros((2, 2, 2, 2))
            for idx in itertools.product(range(2), repeat=4):
                i, j, k, l = idx
                key = tuple(sorted([tuple(sorted((i, j))), tuple(sorted((k, l)))]))
                eri[idx] = 0.3 + 0.17 * (hash(key) % 1 + sum(3 ** q * x for q, x in enumerate(key[0] + key[1])) % 7)
            H1 = gham.AbInitioHamiltonianOnTheFly(hi, t, eri)
            H2 = gham.AbInitioHamiltonian(hi, t, eri)
            order = [tuple(int(q) for q in r) for r in np.asarray(hi.all_states())]
            dt = np.uint8
        perm = [order.index(c) for c in space]
        dense = lambda op: np.asarray(op.to_dense())[np.ix_(perm, perm)]
        DH2 = dense(H2)
        ops = [(H1, DH2 if p["kind"] == "abinitio" else dense(H1)), (H2, DH2)]
        sa = scripted.make(hi, n_chains=1, sweep_size=1, dtype=dt)
        R[:] = [space[0]] * 200
        m = e.model if p["kind"] == "abinitio" else e.model.clone(hilbert=hi)
        e.model = m
        vs = MCStateUniqueSamples(sa, m, n_samples=3, n_discard_per_chain=0, seed=0, batch_size=6, max_sampling_steps=1, chunk_size=p["chunk"])
        v = e.variables(0)
        vs.variables = v
        sets = [c for c in itertools.combinations(space, 3)] if p["kind"] == "abinitio" else [c for k, c in enumerate(itertools.permutations(space, 3)) if k % 7 == 0]
        few = [c for k in (1, 2) for c in itertools.combinations(space, k)]
        for base in sets + few:
            for mult in itertools.product((1, 2, 3), repeat=len(base)):
                if p["kind"] == "est" and mult not in ((1, 1, 1), (1, 3, 1), (2, 1, 1), (1,), (1, 2), (3, 1)):
                    continue
                if mult[-1] != 1 and len(base) == 3:
                    continue  # drawing stops with the third distinct configuration
                draws = [c for c, k in zip(base, mult) for _ in range(k)][:6]
                counts = {}
                for c in (draws + [draws[-1]] * 6)[:6]:
                    if len(counts) >= 3:
                        break
                    counts[c] = counts.get(c, 0) + 1
                vs.reset()
                Q[:] = (draws + [draws[-1]] * 6)[:6]
                note = dict(model=e.name, counts=sorted(counts.items()))
                check_estimates(ctx, vs, e, v, ops, space, counts, note)
                ctx.state((base, mult))
                ctx.trace()
                ctx.outcome(tuple(sorted(counts.items())))
        ctx.sample(model=e.name, sets=len(sets))
        return

    # ---- stratified
    L = 2
    hi = scripted.ScriptedSpin(0.5, N=L)
    space = ref.spins(L)
    chains, sweeps, discard, nrand = p.get("chains", 1), p.get("sweeps", 1), p.get("discard", 0), p.get("nrand")
    det = [c for k, c in enumerate(space) if (p["subset"] >> k) & 1]
    comp = [c for c in space if c not in det]
    sa = scripted.make(hi, n_chains=chains, sweep_size=sweeps)
    # the normalisation of the wavefunction is arbitrary: also one whose amplitudes are not floating-point numbers
    shift = (0.0, 500.0, -500.0)[p["subset"] % 3]
    m = gmod.qGPS(hi, 2, out_transformation=lambda a: jnp.sum(a, axis=(-2, -1)) + shift)
    e = zoo.spin_entry("qGPS", L)
    v = e.variables(0)
    if p["norm"] == "none":  # a normalised wavefunction
        a = zoo.ar_entry("ARqGPS", L)
        m, v = a.model.clone(hilbert=hi), a.variables(0)
        e = a
    e.model = m
    logp = np.asarray(m.apply(v, e.inputs(space)))
    if p["norm"] != "none":
        logp = logp - np.max(logp.real)
    P = {c: float(np.exp(2 * logp[k].real)) for k, c in enumerate(space)}
    kw = dict(random=dict(), sampled=dict(rand_norm=False), none=dict(renormalize=False))[p["norm"]]
    if nrand:
        kw["number_random_samples"] = nrand
    n = 2
    steps = (n // chains) * sweeps + discard * sweeps
    ham = nk.operator.Ising(hi, nk.graph.Chain(L, pbc=False), h=0.7)
    order = [tuple(int(round(t)) for t in r) for r in np.asarray(hi.all_states())]
    perm = [order.index(c) for c in space]
    H = np.asarray(ham.to_dense())[np.ix_(perm, perm)]
    starts = [[c] for c in comp] + [[det[0], c] for c in comp[:1]]
    if chains == 2:
        starts = [[a, b] for a in comp for b in comp]
    draws = list(itertools.product(space, repeat=steps * chains))
    if len(draws) > 256 and not p["T"]:
        draws = draws[::len(draws) // 256]
    randoms = [()]
    if p["norm"] == "random":
        k = nrand or n
        randoms = list(itertools.product(space, repeat=k))
    first, seen = {}, []
    for ks, s0 in enumerate(starts):
        for kd, ds in enumerate(draws):
            for kr, rs in enumerate(randoms):
                if len(draws) * len(randoms) > 128 and not p["T"] and (kd + kr + ks) % (len(draws) * len(randoms) // 64):
                    continue
                key = tuple(s0)
                R[:] = [space[0]] * 20
                if key not in first:  # construct once per start
                    R[:] = [space[0]] * (4 * chains + 4)
                    vs = build(MCStateStratifiedSampling, det, sa, m, n, discard, s0, kw, R, v)
                    first[key] = vs
                vs = first[key]
                vs.reset()
                start = np.array([c for c in s0 if c in comp], dtype=float)
                vs.current_sample = jnp.asarray(start)
                vs.sampler_state = vs.sampler_state.replace(σ=jnp.asarray(start))
                Q[:] = list(ds)
                good = [c for c in rs if c not in det]
                k = (nrand or n) if p["norm"] == "random" else 0
                extra = [comp[0]] * (2 * k)  # a second round if the first one did not suffice
                R[:] = list(rs) + extra
                s, w = weighted(vs)
                # reference
                cur = [tuple(int(t) for t in r) for r in start]
                got, it = [], iter(ds)
                for _ in range(discard * sweeps):
                    cur = [x if x not in det else c for c, x in zip(cur, [next(it) for _ in range(chains)])]
                for _ in range(n // chains):
                    for _ in range(sweeps):
                        cur = [x if x not in det else c for c, x in zip(cur, [next(it) for _ in range(chains)])]
                    got += cur
                pd = sum(P[c] for c in det)
                if p["norm"] == "none":
                    norm = 1.0
                elif p["norm"] == "sampled":
                    norm = pd + len(comp) * n / sum(1 / P[c] for c in got)
                else:
                    use = (good + [comp[0]] * k)[:k]
                    norm = pd + len(comp) * np.mean([P[c] for c in use])
                weights = [P[c] / norm for c in det] + [(1 - pd / norm) / n] * n
                want = {}
                for c, x in zip(det + got, weights):
                    want[c] = want.get(c, 0.0) + x
                have = {}
                for r, x in zip(s, w):
                    r = tuple(int(t) for t in r)
                    have[r] = have.get(r, 0.0) + float(x)
                note = dict(deterministic=det, start=s0, draws=ds, random=rs, norm=p["norm"])
                ctx.require(set(have) == set(want), "configurations of the stratified sample", got=sorted(have), expected=sorted(want), **note)
                ctx.close([have[c] for c in want], list(want.values()), "weights of the stratified sample", **note)
                ctx.close(np.sum(w), 1.0, "weights sum to one", **note)
                psi = np.exp(logp)
                E = (H @ psi) / psi
                mean = sum(x * E[space.index(c)] for c, x in want.items())
                ctx.close(complex(vs.expect(ham).mean), mean, "stratified expectation value", **note)
                if len(seen) % 24 == 0:
                    check_estimates(ctx, vs, e, v, [(ham, H)], space, want, note)
                seen.append(0)
                ctx.state((key, ds, rs))
                ctx.trans(len(ds) + len(rs))
                ctx.trace()
                ctx.outcome(np.round(mean, 9))
    ctx.sample(deterministic=det, norm=p["norm"])


def build(cls, det, sa, m, n, discard, s0, kw, R, v):
    chains = sa.n_chains_per_rank
    # netket asks for initial states of the chains first, then the state looks for a start outside of the deterministic set
    vs = None
    for k in range(0, 12):
        R[:] = [tuple(int(t) for t in det[0])] * k + list(s0) + [c for c in s0 if c not in det] * 40
        try:
            vs = cls(np.array(det, dtype=float), 4, sa, m, n_samples=n, n_discard_per_chain=discard, seed=0, **kw)
        except Exception:
            vs = None
        if vs is not None:
            break
    vs.variables = v
    cur = [tuple(int(t) for t in r) for r in np.asarray(vs.current_sample)]
    from mc.core import Violation
    if len(cur) != chains or any(c in det for c in cur):
        raise Violation("the chains start outside of the deterministic set", start=cur)
    return vs
