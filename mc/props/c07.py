"""C07: the fermionic Hilbert space contains exactly the configurations with the requested electron numbers."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

CONTROL_RNG = True
RULE = ("a state is (space, configuration of the unconstrained space) whose membership, number and random-draw probability were "
        "compared with the definition; a transition is one conversion or one resolved random draw; a trace is one complete "
        "space or one execution of the random state generator")
BOUNDS = dict(
    quick="every electron number of 1-4 orbitals and the unconstrained spaces, 5-6 orbitals and single sectors of 7-9 for the enumeration; random states: every outcome of every draw "
          "up to 3 orbitals (4 for four sectors), batches of one and two",
    thorough="as quick with every sector of up to 7 orbitals for the enumeration and of 4 orbitals for random states",
)
ASSUMPTIONS = ["occupations are 0 empty, 1 up, 2 down, 3 both; states are numbered in lexicographic order of the occupations"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for L in range(1, 8 if T else 7):
        secs = [None] + list(itertools.product(range(L + 1), repeat=2))
        if L >= 5 and not T:
            secs = [(2, 3), (L, 1), (0, 2), (L, L)]
        for k in range(0, len(secs), 6):
            out.append(("space/L%d/%d" % (L, k), dict(kind="space", L=L, secs=secs[k:k + 6])))
    for L in range(1, 5):
        secs = [None] + list(itertools.product(range(L + 1), repeat=2))
        if L == 4 and not T:
            secs = [(2, 2), (1, 3), (4, 2), (0, 1)]
        if L == 4:
            secs = [s for s in secs if s is not None]
        for s in secs:
            out.append(("random/L%d/%s" % (L, s), dict(kind="random", L=L, n=s)))
    for L, n in [(7, (3, 4)), (8, (2, 6)), (8, (7, 4)), (9, (1, 8))] + ([(8, (4, 4)), (10, (2, 2))] if T else []):
        out.append(("large/L%d/%s" % (L, n), dict(kind="space", L=L, secs=[n])))
    out.append(("power", dict(kind="power", L=3)))
    return sorted(out, key=lambda c: -c[1]["L"])


def run(p, ctx):
    from mc import rng

    L = p["L"]
    if p["kind"] == "space":
        if L <= 7:
            every = np.array(list(itertools.product(range(4), repeat=L)), dtype=np.uint8)
        else:  # the states of the space and everything one site away from them
            near = set(ref.sector(L, tuple(p["secs"][0])))
            near |= {c[:i] + (v,) + c[i + 1:] for c in list(near) for i in range(L) for v in range(4)}
            every = np.array(sorted(near), dtype=np.uint8)
        hs = {}
        for n in p["secs"]:
            n = n if n is None else tuple(n)
            hi = FermionicDiscreteHilbert(L, n_elec=n)
            basis = ref.sector(L, n)
            member = set(basis)
            S = np.asarray(hi.all_states())
            ctx.require(hi.size == L and hi.local_size == 4, "size", L=L, n=n)
            ctx.require(list(np.asarray(hi.local_states).astype(int)) == [0, 1, 2, 3], "local states")
            ctx.require(hi.constrained == (n is not None), "constrained", n=n)
            ctx.require(hi.is_finite and hi.is_indexable, "indexable")
            ctx.require(hi.n_states == len(basis), "number of states", got=hi.n_states, expected=len(basis), n=n, L=L)
            ctx.require([tuple(int(v) for v in s) for s in S] == basis, "enumerated states", n=n, L=L)
            if n is not None:
                inside = np.asarray(hi.constraint(jnp.asarray(every))).astype(bool)
                want = np.array([tuple(c) in member for c in every.tolist()])
                ctx.require(np.array_equal(inside, want), "membership", n=n, L=L, bad=every[inside != want][:2])
                one = [bool(hi.constraint(jnp.asarray(c))) for c in every[:16]]
                ctx.require(one == want[:16].tolist(), "membership of single configurations", n=n)
            idx = np.arange(len(basis))
            ctx.require(np.array_equal(np.asarray(hi.states_to_numbers(jnp.asarray(S))), idx), "states to numbers", n=n, L=L)
            back = np.asarray(hi.numbers_to_states(jnp.asarray(idx)))
            ctx.require(np.array_equal(back, S), "numbers to states", n=n, L=L)
            for k in list(range(min(4, len(basis)))):
                ctx.require(int(hi.states_to_numbers(jnp.asarray(S[k]))) == k, "number of a single state", n=n)
            loc = np.asarray(hi.states_to_local_indices(jnp.asarray(S)))
            ctx.require(np.array_equal(loc, S.astype(int)), "local indices", n=n)
            for dt in (np.float64, np.int32):
                ctx.require(np.array_equal(np.asarray(hi.states_to_local_indices(jnp.asarray(S, dtype=dt))).astype(int), S.astype(int)), "local indices", dtype=str(dt))
            ctx.require(hi == FermionicDiscreteHilbert(L, n_elec=n) and hash(hi) == hash(FermionicDiscreteHilbert(L, n_elec=n)), "equality", n=n)
            for m, other in hs.items():
                ctx.require(other != hi, "distinct spaces are not equal", n=n, m=m)
            ctx.require(hi != FermionicDiscreteHilbert(L + 1, n_elec=n), "sizes matter", n=n)
            hs[n] = hi
            for c in map(tuple, every.tolist()):
                ctx.state((n, c))
            ctx.trans(3 * len(basis) + len(every))
            ctx.trace()
            ctx.outcome((n, L, len(basis)))
    elif p["kind"] == "random":
        n = p["n"] and tuple(p["n"])
        hi = FermionicDiscreteHilbert(L, n_elec=n)
        basis = ref.sector(L, n)
        for dt in (jnp.uint8, jnp.int32, jnp.float64):
            for batches in (1, 2):
                if batches == 2 and (L > 2 or dt != jnp.uint8 or n is not None and L > 2):
                    continue
                f = jax.jit(lambda key: hi.random_state(key, batches, dtype=dt))

                def once(scripts, starts):
                    x = np.asarray(f(jax.random.PRNGKey(11)))
                    ctx.require(x.shape == (batches, L) and x.dtype == dt, "shape and dtype", got=(x.shape, str(x.dtype)))
                    return [tuple(tuple(int(v) for v in r) for r in x)]

                want = {tuple(c): 1.0 / len(basis) ** batches for c in itertools.product(basis, repeat=batches)}
                dist, leaves, _ = rng.explore_checked(once, 1, ctx, lambda d: rng.near(d[0], want, 1e-9))
                for c in dist[0]:
                    ctx.require(c in want, "random state outside of the space", got=c, n=n)
                ctx.close([dist[0].get(c, 0.0) for c in want], list(want.values()), "distribution of random states", n=n, batches=batches)
                for c in want:
                    ctx.state((str(dt), c))
            if L == 4:
                break
        x = hi.random_state(jax.random.PRNGKey(0), 5)
        ctx.require(x.shape == (5, L), "shape of a batch")
        x = hi.random_state(jax.random.PRNGKey(0))
        ctx.require(x.shape == (L,), "shape of a single random state", got=x.shape)
        x = hi.random_state(jax.random.PRNGKey(0), (2, 3))
        ctx.require(x.shape == (2, 3, L), "shape of a nested batch", got=x.shape)
        ctx.require(n is None or bool(np.all(np.asarray(hi.constraint(jnp.asarray(x))))), "random states obey the constraint")
    else:
        for L in (1, 2, 3):
            for n in [None] + list(itertools.product(range(L + 1), repeat=2)):
                for k in (1, 2, 3):
                    if L * k > 6:
                        continue
                    hi = FermionicDiscreteHilbert(L, n_elec=n) ** k
                    m = None if n is None else (n[0] * k, n[1] * k)
                    ctx.require(hi == FermionicDiscreteHilbert(L * k, n_elec=m), "power", L=L, n=n, k=k)
                    if L * k <= 4:
                        S = [tuple(int(v) for v in s) for s in np.asarray(hi.all_states())]
                        ctx.require(S == ref.sector(L * k, m), "states of a power", L=L, n=n, k=k)
                    ctx.state(("pow", L, n, k))
                    ctx.trans()
                    ctx.trace()
