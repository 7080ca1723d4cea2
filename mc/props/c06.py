"""C06: Metropolis sampling: proposals conserve the sector and are symmetric, and the (fast) samplers realise the exact kernel."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

CONTROL_RNG = True
RULE = ("a state is (sampler, options, wavefunction, configuration) whose complete transition distribution was compared with the "
        "exact Metropolis kernel; a transition is one resolved random decision; a trace is one execution of the real sampler "
        "along one sequence of decisions")
BOUNDS = dict(
    quick="every start configuration of the enumerated sectors of 2-3 orbitals (and four configurations of 6 and 9 for the proposals) and 2-4 spins, every "
          "outcome of every random draw with its exact probability, sweeps of one and two steps, several chains; models of the library "
          "and tables of independent amplitudes scaled by exp(900) and exp(-900)",
    thorough="as quick with more sectors, 4 orbitals, sweeps of three steps",
)
ASSUMPTIONS = [
    "the random number generator delivers independent uniform draws for different keys; draws with the same key are identical",
    "transition weights are symmetric with equal row sums, as the samplers require",
]


def cases(tier):
    T = tier == "thorough"
    out = []
    secs = [(2, (1, 1)), (2, (2, 1)), (2, (1, 0)), (3, (1, 1)), (3, (2, 1)), (3, (1, 2)), (3, (2, 2)), (3, (3, 1)), (2, (2, 2))]
    if T:
        secs += [(4, (2, 2)), (4, (1, 2)), (4, (3, 1)), (3, (0, 2)), (3, (3, 3))]
    for L, n in secs:
        for hop in (1.0, 0.6, 0.0):
            for tp in (False, True):
                if tp and hop == 0.6 and not T and L == 2:
                    continue
                out.append(("proposal/L%d/%s/hop%s%s" % (L, n, hop, "/weights" if tp else ""),
                            dict(kind="proposal", L=L, n=n, hop=hop, tp=tp, fast=False)))
                out.append(("proposal+updates/L%d/%s/hop%s%s" % (L, n, hop, "/weights" if tp else ""),
                            dict(kind="proposal", L=L, n=n, hop=hop, tp=tp, fast=True)))
    for L, n in [(6, (3, 2)), (9, (1, 2))]:  # larger lattices, from a few configurations
        for hop in (1.0, 0.6):
            for fast in (False, True):
                out.append(("proposal%s/L%d/%s/hop%s" % ("+updates" if fast else "", L, n, hop),
                            dict(kind="proposal", L=L, n=n, hop=hop, tp=False, fast=fast, starts=4)))
    models = ["qGPS", "Slater/unrestricted", "Slater/general/lin", "SlaterqGPS/unrestricted", "CPDBackflow/unrestricted",
              "PlaquetteqGPS/pair", "ASymmqGPS/unrestricted", "qGPS/sym"]
    for k, m in enumerate(models):
        ks = [(2, (1, 1)), (3, (2, 1))] if k < 2 or T else [((2, (1, 1)), (3, (2, 1)))[k % 2]]
        if m == "PlaquetteqGPS/pair" and not T:
            ks = [(3, (1, 1))]
        for L, n in ks:
            for steps in (1, 2) + ((3,) if T and L == 2 else ()):
                if steps > 1 and L > 2 and not T and m != "qGPS":
                    continue
                out.append(("hopping/fast/%s/L%d/%s/%d" % (m, L, n, steps), dict(kind="hopping", fast=True, model=m, L=L, n=n, steps=steps, hop=0.7 if L == 2 else 1.0)))
    for steps in (1, 2):
        out.append(("hopping/plain/L2/%d" % steps, dict(kind="hopping", fast=False, model="qGPS", L=2, n=(1, 1), steps=steps, hop=0.6)))
    out.append(("hopping/plain/L3", dict(kind="hopping", fast=False, model="Slater/unrestricted", L=3, n=(2, 1), steps=1, hop=1.0)))
    for L, dm, steps in [(2, 1, 1), (3, 1, 1), (3, 1, 2), (4, 1, 1), (4, 2, 1)] + ([(4, 1, 2), (4, 1, 3), (5, 2, 1)] if T else []):
        for m in ("qGPS", "qGPS/auto/flip", "PlaquetteqGPS/pair"):
            if m.startswith("Plaq") and (L < 3 or steps > 1 and not T):
                continue
            out.append(("exchange/%s/L%d/d%d/%d" % (m, L, dm, steps), dict(kind="exchange", model=m, L=L, dm=dm, steps=steps)))
    # independent amplitudes far outside the range of floating-point numbers, one of them relatively tiny
    for shift in (900.0, -900.0):
        for fast in (False, True):
            out.append(("hopping/table%+g/%s" % (shift, "fast" if fast else "plain"),
                        dict(kind="hopping", fast=fast, model="table", shift=shift, L=2, n=(1, 1), steps=1, hop=0.6)))
        out.append(("exchange/table%+g" % shift, dict(kind="exchange", model="table", shift=shift, L=3, dm=1, steps=1)))
    out.append(("exchange/clusters", dict(kind="exchange", model="qGPS", L=4, dm=None, steps=1)))
    return out


def reference_proposal(L, basis, hop, tp):
    """T[x, y] of the documented move: with probability `hop` a uniformly chosen electron hops to a uniformly chosen site without an
    electron of its spin, else a uniformly chosen pair of opposite singly occupied sites is exchanged."""
    index = {c: k for k, c in enumerate(basis)}
    T = np.zeros((len(basis),) * 2)

    def targets(start, allowed):
        """distribution over allowed target sites; whatever is not allowed leaves the configuration unchanged"""
        if tp is not None:
            tot = np.sum(tp[start])
            return [(j, tp[start, j] / tot if j in allowed else 0.0) for j in range(L)]
        return [(j, 1.0 / len(allowed)) for j in allowed]

    for c in basis:
        k = index[c]
        electrons = [(i, s) for i in range(L) for s in (0, 1) if ref.has(c, i, s)]
        stay = 1.0
        for i, s in electrons:
            free = [j for j in range(L) if not ref.has(c, j, s)]
            for j, w in targets(i, free):
                if w:
                    d = list(c)
                    d[i] -= 1 << s
                    d[j] += 1 << s
                    T[k, index[tuple(d)]] += hop * w / len(electrons)
                    stay -= hop * w / len(electrons)
        single = [i for i in range(L) if c[i] in (1, 2)]
        for i in single:
            opp = [j for j in single if c[j] == 3 - c[i]]
            for j, w in targets(i, opp):
                if w:
                    d = list(c)
                    d[i], d[j] = d[j], d[i]
                    T[k, index[tuple(d)]] += (1 - hop) * w / len(single)
                    stay -= (1 - hop) * w / len(single)
        T[k, k] += stay
    return T


def weights(L):
    """symmetric with equal row sums, zero diagonal where possible"""
    W = np.zeros((L, L))
    for i in range(L):
        for j in range(L):
            d = min((i - j) % L, (j - i) % L)
            W[i, j] = [0.0, 0.35, 0.2, 0.1][d]
    if L == 2:
        W[0, 0] = W[1, 1] = 0.15
    return W


def run(p, ctx):
    from mc import rng, zoo
    from mc.core import Violation

    if p["kind"] in ("proposal", "hopping"):
        L, n = p["L"], tuple(p["n"])
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        basis = ref.sector(L, n)
        tp = weights(L) if p.get("tp") else None
        T = reference_proposal(L, basis, p["hop"], tp)
        kw = {} if p["hop"] == 1.0 and L == 3 else dict(hop_probability=p["hop"])  # (hopping only is the default)
        if tp is not None:
            kw["transition_probs"] = jnp.asarray(tp)
        make = GPSKet.sampler.MetropolisFastHopping if p["fast"] else GPSKet.sampler.MetropolisHopping
    else:
        L = p["L"]
        basis = ref.spins(L, None)
        hi = nk.hilbert.Spin(0.5, N=L)
        graph = nk.graph.Chain(L, pbc=L > 2)
        if p["dm"] is None:
            pairs = [(0, 2), (1, 3), (0, 1)]
            kw = dict(clusters=np.array(pairs))
        else:
            dist = lambda i, j: min(abs(i - j), L - abs(i - j)) if L > 2 else abs(i - j)
            pairs = [(i, j) for i in range(L) for j in range(i + 1, L) if dist(i, j) <= p["dm"]]
            kw = dict(graph=graph, d_max=p["dm"])
        T = np.zeros((len(basis),) * 2)
        index = {c: k for k, c in enumerate(basis)}
        for c in basis:
            for i, j in pairs:
                d = list(c)
                d[i], d[j] = d[j], d[i]
                T[index[c], index[tuple(d)]] += 1.0 / len(pairs)
        make = GPSKet.sampler.MetropolisFastExchange
    ctx.close(T, T.T, "the reference proposal is symmetric")
    index = {c: k for k, c in enumerate(basis)}
    N = len(basis)

    if p["kind"] == "proposal":
        S = p.get("starts", N)
        if S < N:  # one from each part of the space
            first = [basis[(N * (2 * k + 1)) // (2 * S)] for k in range(S)]
            basis = first + [c for c in basis if c not in set(first)]
            index = {c: k for k, c in enumerate(basis)}
            T = reference_proposal(L, basis, p["hop"], tp)
        rows = max(4, min(64, 4 * N))
        sampler = make(hi, n_chains=rows, **kw)
        rule = sampler.rule
        for dtype in (np.uint8, np.int32) if L == 2 else (np.uint8,):
            f = jax.jit(lambda key, x: rule.transition(sampler, None, None, None, key, x))

            def once(scripts, starts):
                x = np.array([basis[a] for a in starts], dtype=dtype)
                res = f(jax.random.PRNGKey(5), jnp.asarray(x))
                y = np.asarray(res[0])
                ctx.require(y.dtype == dtype, "dtype of the proposed configurations", got=str(y.dtype))
                ctx.require(res[1] is None or np.allclose(res[1], 0), "the move is symmetric: no correction")
                if p["fast"]:
                    us = np.asarray(res[2])
                    for r in range(rows):  # the reported sites contain every site that changed
                        changed = {i for i in range(L) if x[r, i] != y[r, i]}
                        ctx.require(changed <= set(us[r].tolist()) and all(0 <= u < L for u in us[r]), "reported update sites",
                                    x=x[r], y=y[r], sites=us[r])
                return [tuple(int(v) for v in y[r]) for r in range(rows)]

            dist, leaves, shared = rng.explore_checked(once, rows, ctx, rng.matrix(basis, T, 1e-7), starts=S)
            ctx.require(not shared, "chains share their random numbers")
            got = np.zeros((S, N))
            for a in range(S):
                for y, w in dist[a].items():
                    ctx.require(y in index, "the proposal left the sector", x=basis[a], y=y)
                    got[a, index[y]] += w
                ctx.state(basis[a])
            ctx.close(got, T[:S], "proposal probabilities", hop=p["hop"], L=L, n=n, atol=1e-7)
            if tp is not None or p["hop"] < 1 or dtype != np.uint8 or S < N:
                continue
            # every configuration of the sector can be reached
            R = np.linalg.matrix_power((got > 0).astype(float) + np.eye(N), N) > 0
            ctx.require(R.all(), "the moves do not connect the sector")
        ctx.sample(configurations=N, leaves=len(leaves))
        return

    # ---- the complete sampler: exact kernel of one sweep
    table = p["model"] == "table"
    if table:
        from mc import tables

        q = hi.local_size
        idx = [tables.config_index([(v + 1) // 2 for v in c] if q == 2 else c, q) for c in basis]
        tab = p["shift"] + tables.log_table(q**L, "complex", 5)
        tab[idx[1]] -= 20.0
        model, v, name = tables.FastTable(hi), {"params": {"table": jnp.asarray(tab)}}, "table"
        logs = tab[idx].real
    else:
        e = zoo.fermion_entry(p["model"], L, tuple(p["n"])) if p["kind"] == "hopping" else zoo.spin_entry(p["model"], L)
        v, model, name = e.variables(0), e.model, e.name
        npv = jax.tree_util.tree_map(np.asarray, v)
        logs = np.log([abs(complex(e.amp(npv, c))) for c in basis])
    steps = p["steps"]
    rows = 256 if N * steps > 10 else 128
    for mpow in (2, 1):
        if mpow == 1 and steps > 1:
            continue
        kw2 = dict(kw, n_chains=rows, sweep_size=steps)
        if mpow != 2:
            kw2["machine_pow"] = mpow
        sampler = make(hi, **kw2)
        prob = np.exp(mpow * (logs - np.max(logs)))
        K = T * np.minimum(1.0, prob[None, :] / prob[:, None])
        K[np.arange(N), np.arange(N)] += 1 - K.sum(axis=1)
        ctx.close(prob[:, None] * K, (prob[:, None] * K).T, "detailed balance of the reference")
        expected = np.linalg.matrix_power(K, steps)
        state0 = sampler.init_state(model, v, seed=3)
        xdt = np.asarray(state0.σ).dtype
        # one execution: place the chains, run one sweep
        def step(st):
            y, new = sampler.sample(model, v, state=st, chain_length=1)
            return new, y

        def once(scripts, starts):
            x = np.array([basis[a] for a in starts], dtype=xdt)
            st = sampler.reset(model, v, state0.replace(σ=jnp.asarray(x)))
            new, y = step(st)
            y = np.asarray(y).reshape(rows, L)
            ctx.require(np.array_equal(np.asarray(new.σ), y), "the returned configurations are those of the state")
            ctx.require(int(new.n_steps) - int(st.n_steps) == rows * steps, "number of steps", got=int(new.n_steps))
            if steps == 1:  # (a move which leaves the configuration as it is may count as accepted or not)
                moved = int(np.sum(np.any(x != y, axis=1)))
                acc = int(np.sum(np.asarray(new.n_accepted_proc))) - int(np.sum(np.asarray(st.n_accepted_proc)))
                ctx.require(moved <= acc <= rows, "number of accepted moves", moved=moved, accepted=acc)
            return [tuple(int(q) for q in y[r]) for r in range(rows)]

        dist, leaves, shared = rng.explore_checked(once, rows, ctx, rng.matrix(basis, expected, 3e-6), starts=N)
        ctx.require(not shared, "chains share their random numbers")
        got = np.zeros((N, N))
        for a in range(N):
            for y, w in dist[a].items():
                ctx.require(y in index, "the chain left the sector", x=basis[a], y=y)
                got[a, index[y]] += w
            ctx.state((mpow, basis[a]))
        ctx.close(got, expected, "Metropolis kernel", atol=3e-6, rtol=1e-6, model=name, steps=steps, machine_pow=mpow)
        ctx.sample(model=name, configurations=N, executions=len(leaves))
