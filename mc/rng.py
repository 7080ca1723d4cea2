"""Controlled randomness: every draw of the code under test becomes a choice point that the explorer decides.

`install()` replaces the drawing functions of jax.random (uniform, choice, randint, categorical, bernoulli, permutation) by
host callbacks; it has to run before anybody imports names from jax.random. The rows of a batch (chains, samples) are
explored in parallel: each row follows its own script of decisions.

A decision is either discrete (an outcome index with its exact probability) or a uniform number in [0, 1). Draws with the same
key are not independent, and neither are they here: a uniform number (and the choices made from it by inverse transform, as
jax.random.choice and bernoulli do) is remembered per key.
"""
import os

import numpy as np

CTL = None


class Control:
    def __init__(self):
        self.reset(None, 1)
        self.active = False

    def reset(self, scripts, rows):
        self.scripts = scripts  # per row: {name of a draw: forced decision (int index or float value)}
        self.rows = rows
        self.trace = [[] for _ in range(rows)]  # per row: list of ("d", name, probabilities, taken) / ("u", name, value)
        self.counts = [{} for _ in range(rows)]
        self.eager = 0
        self.memo = {}
        self.shared = False
        self.calls = 0

    # ---- decisions of one row
    def name(self, row):
        """the place in the program and how often this row has been there"""
        c = self.counts[row]
        c[self.place] = c.get(self.place, 0) + 1
        return (self.place, c[self.place])

    def discrete(self, row, p):
        n = self.name(row)
        i = self.scripts[row].get(n)
        i = int(i) if i is not None else [k for k in range(len(p)) if p[k] > 0][0]
        self.trace[row].append(("d", n, p, i))
        return i

    def uniform(self, row):
        n = self.name(row)
        u = float(self.scripts[row].get(n, 1e-7))
        self.trace[row].append(("u", n, u))
        return u

    # ---- one call for a whole batch
    def call(self, kind, keys, p, shape, place, bits=""):
        """keys (..., 2); p (..., n) or None; returns (lead..., *shape) of indices or values"""
        self.calls += 1
        self.place = place
        keys = np.asarray(keys)
        lead_k = keys.shape[:-1]
        lead_p = () if p is None else np.shape(p)[:-1]
        lead = lead_k if len(lead_k) >= len(lead_p) else lead_p
        if lead and not lead_k:
            self.shared = True
        n_lead = int(np.prod(lead)) if lead else 1
        n_el = int(np.prod(shape)) if shape else 1
        keys = np.broadcast_to(keys, lead + keys.shape[-1:]).reshape(n_lead, -1)
        if p is not None:
            p = np.asarray(p, dtype=float)
            p = np.broadcast_to(p, lead + p.shape[-1:]).reshape(n_lead, -1)
        total = n_lead * n_el
        out = np.zeros(total)
        per_row = total // self.rows if self.active and total % self.rows == 0 and total else 0
        seen = set()
        for a in range(n_lead):
            kb = keys[a].tobytes()
            if kb in seen and n_lead > 1:
                self.shared = True
            seen.add(kb)
            for b in range(n_el):
                e = a * n_el + b
                row = e // per_row if per_row else None
                out[e] = self.draw(kind, row, (kb, b, row, bits, n_el), None if p is None else p[a])
        return out.reshape(lead + tuple(shape))

    def draw(self, kind, row, ident, p):
        if row is None:  # not explored: an arbitrary but reproducible draw
            r = np.random.RandomState(np.frombuffer(ident[0] + bytes([ident[1] % 256]), dtype=np.uint8).astype(np.uint32))
            u = r.rand()
            if kind == "uniform":
                return u
            q = p / p.sum() if p.sum() > 0 else np.eye(len(p))[0]
            return int(min(np.searchsorted(np.cumsum(q), u), len(p) - 1))
        if p is not None and not p.sum() > 0:
            return 0  # what inverse transform sampling returns for vanishing weights
        if kind == "indep":  # drawn from bits of its own
            key = ("i", tuple(p)) + ident
            if key not in self.memo:
                self.memo[key] = self.discrete(row, tuple(p / p.sum()))
            return self.memo[key]
        known = self.memo.get(ident)  # what is known about the uniform number of this key: an interval
        if kind == "uniform":
            if known is None:
                u = self.uniform(row)
                self.memo[ident] = (u, u)
                return u
            return 0.5 * (known[0] + known[1])
        # inverse transform: outcome i for 1 - u in (c[i-1], c[i]]   (choice)   or u < p[0]   (bernoulli, as outcomes 0/1)
        c = np.concatenate([[0.0], np.cumsum(p / p.sum())])
        c[-1] = 1.0
        cells = [(1 - c[i + 1], 1 - c[i]) for i in range(len(p))] if kind == "choice" else [(c[i], c[i + 1]) for i in range(len(p))]
        lo, hi = known if known is not None else (0.0, 1.0)
        if hi <= lo:
            w = [1.0 if cells[i][0] <= lo < cells[i][1] else 0.0 for i in range(len(p))]
        else:
            w = [max(0.0, min(hi, b) - max(lo, a)) / (hi - lo) for a, b in cells]
            w = [x if x > 1e-12 else 0.0 for x in w]
        i = self.discrete(row, tuple(w))
        a, b = cells[i]
        self.memo[ident] = (max(lo, a), min(hi, b)) if hi > lo else (lo, hi)
        return i


def install():
    global CTL
    if not os.environ.get("MC_RNG") or CTL is not None:
        return
    CTL = Control()
    import jax
    import jax.numpy as jnp
    from jax.experimental import io_callback

    real = {k: getattr(jax.random, k) for k in ("uniform", "choice", "randint", "categorical", "bernoulli", "permutation")}
    counter = [0]  # places in the program, numbered as they are traced

    def keydata(key):
        key = jnp.asarray(key)
        return jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key

    def ask(kind, key, p, shape, dtype, bits=""):
        shape = tuple(shape)
        kd = keydata(key)
        if isinstance(kd, jax.core.Tracer) and not jax.config.jax_disable_jit:
            counter[0] += 1
            place = (0, counter[0])
        else:
            CTL.eager += 1
            place = (1, CTL.eager)
        res = jax.ShapeDtypeStruct(shape, jnp.float64)
        if p is None:
            out = jax.pure_callback(lambda k: CTL.call(kind, k, None, shape, place, bits), res, kd, vectorized=True)
        else:
            p = jnp.asarray(p, jnp.float64)
            out = jax.pure_callback(lambda k, q: CTL.call(kind, k, q, shape, place, bits), res, kd, p, vectorized=True)
        return out.astype(dtype)

    def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
        dtype = jnp.zeros((), dtype).dtype
        u = ask("uniform", key, None, shape, dtype, str(dtype))
        return (u * (jnp.asarray(maxval, dtype) - jnp.asarray(minval, dtype)) + jnp.asarray(minval, dtype)).astype(dtype)

    def equal(n):
        return jnp.full((n,), 1.0 / n)

    def randint(key, shape, minval, maxval, dtype=int):
        dtype = jnp.zeros((), dtype).dtype
        try:
            lo, hi = int(minval), int(maxval)
        except Exception:
            return real["randint"](key, shape, minval, maxval, dtype)
        if hi - lo > 4096:
            return real["randint"](key, shape, minval, maxval, dtype)
        return ask("indep", key, equal(hi - lo), shape, dtype) + jnp.asarray(lo, dtype)

    def choice(key, a, shape=(), replace=True, p=None, axis=0):
        arr = jnp.asarray(a)
        n = int(a) if arr.ndim == 0 else arr.shape[axis]
        draws = int(np.prod(shape)) if shape else 1
        if not replace and draws == 0:
            return real["choice"](key, a, shape, replace, p, axis)
        if not replace and p is not None:  # successive draws without replacement, one decision among all ordered sequences
            import itertools

            if n > 6 or draws > 4:
                return real["choice"](key, a, shape, replace, p, axis)
            seqs = np.array(list(itertools.permutations(range(n), draws)))
            q = jnp.asarray(p, jnp.float64)
            q = q / jnp.sum(q)
            w, left = jnp.ones(len(seqs)), jnp.ones(len(seqs))
            for k in range(draws):
                x = q[seqs[:, k]]
                w = w * jnp.where(x > 0, x / jnp.where(left > 1e-13, left, 1.0), 0.0)
                left = left - x
            ind = jnp.asarray(seqs)[ask("indep", key, w, (), jnp.int64)].reshape(shape)
            return ind if arr.ndim == 0 else jnp.take(arr, ind, axis)
        if not replace:
            return permutation(key, n if arr.ndim == 0 else arr, axis)[(slice(None),) * axis + (slice(draws),)].reshape(
                shape if arr.ndim == 0 else arr.shape[:axis] + tuple(shape) + arr.shape[axis + 1:])
        if p is None:
            ind = randint(key, shape, 0, n)
        else:
            p = jnp.asarray(p)
            kind = p.dtype if jnp.issubdtype(p.dtype, jnp.floating) else jnp.promote_types(p.dtype, jnp.float32)
            if p.dtype in (jnp.int64, jnp.uint64):
                kind = jnp.float64
            ind = ask("choice", key, p, shape, jnp.int64, str(jnp.dtype(kind)))
        return ind if arr.ndim == 0 else jnp.take(arr, ind, axis)

    def permutation(key, x, axis=0, independent=False):
        arr = jnp.asarray(x)
        n = int(x) if arr.ndim == 0 else arr.shape[axis]
        if n > 5 or independent:
            return real["permutation"](key, x, axis, independent)
        import itertools

        table = jnp.asarray(np.array(list(itertools.permutations(range(n)))).reshape(-1, n))
        order = table[ask("indep", key, equal(len(table)), (), jnp.int64)]
        return order if arr.ndim == 0 else jnp.take(arr, order, axis)

    def categorical(key, logits, axis=-1, shape=None, **kw):
        logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
        if logits.ndim > 1 or (shape is not None and tuple(shape) != ()):
            if shape is not None and tuple(shape) != logits.shape[:-1]:
                return real["categorical"](key, logits, -1, shape)
            keys = jax.random.split(key, int(np.prod(logits.shape[:-1])))
            flat = logits.reshape(-1, logits.shape[-1])
            return jax.vmap(lambda k, l: categorical(k, l))(keys, flat).reshape(logits.shape[:-1])
        return ask("indep", key, jax.nn.softmax(logits), (), jnp.int64)

    def bernoulli(key, p=0.5, shape=None):
        bits = str(jnp.result_type(p)) if jnp.issubdtype(jnp.result_type(p), jnp.floating) else "float64"
        p = jnp.asarray(p, jnp.float64)
        if shape is not None and p.shape != tuple(shape):
            p = jnp.broadcast_to(p, shape)
        if p.ndim:
            keys = jax.random.split(key, p.size)
            return jax.vmap(lambda k, q: bernoulli(k, q))(keys, p.reshape(-1)).reshape(p.shape)
        q = jnp.clip(p, 0.0, 1.0)
        return ask("bernoulli", key, jnp.stack([q, 1 - q]), (), jnp.int64, bits) == 0

    for name, f in dict(uniform=uniform, choice=choice, randint=randint, categorical=categorical, bernoulli=bernoulli,
                        permutation=permutation).items():
        setattr(jax.random, name, f)


# ---- exhaustive exploration of the decision tree
GRID = np.concatenate([[1e-7], (np.arange(12) + 0.5) / 12, [1 - 1e-7]])


def explore(run, rows, ctx=None, max_nodes=200000, starts=1, order=None):
    """All executions of `run`, which executes the code once for `rows` rows and returns one hashable outcome per row.

    run(scripts, extra) -> outcomes; row r belongs to start extra[r] (an index < starts).
    Returns per start the exact distribution {outcome: probability}, the leaves [(start, script, weight, outcome, trace)] and
    whether rows ever shared their random numbers."""
    from mc.core import Violation

    shared = [False]

    def execute(jobs):
        """jobs: [(start, script)] -> [(outcome, trace)]"""
        res = []
        for k in range(0, len(jobs), rows):
            part = jobs[k:k + rows]
            pad = part + [part[-1]] * (rows - len(part))
            CTL.reset([dict(s) for _, s in pad], rows)
            CTL.active = True
            try:
                outs = run([s for _, s in pad], [a for a, _ in pad])
            finally:
                CTL.active = False
            shared[0] |= CTL.shared
            for i in range(len(part)):
                res.append((outs[i], CTL.trace[i]))
            if ctx is not None:
                ctx.trace(len(part))
        return res

    todo = [(a, (), 1.0) for a in range(starts)]
    dist = [dict() for _ in range(starts)]
    leaves = []
    nodes = 0
    while todo:
        res = execute([(a, s) for a, s, _ in todo])
        nodes += len(todo)
        if nodes > max_nodes:
            raise Violation("the decision tree did not close", nodes=nodes)
        nxt, cont = [], []
        for (a, s, w), (out, tr) in zip(todo, res):
            done = {n for n, _ in s}
            rest = [d for d in tr if d[1] not in done]
            if len(tr) - len(rest) != len(s):
                raise Violation("a decision disappeared", script=list(s))
            if not rest:
                dist[a][out] = dist[a].get(out, 0.0) + w
                leaves.append((a, s, w, out, tr))
                continue
            d = min(rest, key=lambda d: order(d[1])) if order else rest[0]
            if d[0] == "d":
                for i, q in enumerate(d[2]):
                    if q > 0:
                        nxt.append((a, s + ((d[1], i),), w * q))
                        if ctx is not None:
                            ctx.trans()
            else:
                cont.append((a, s, w, d[1]))
        if cont:  # uniform numbers: find the exact breakpoints of the outcome
            g = execute([(a, s + ((n, float(u)),)) for a, s, _, n in cont for u in GRID])

            def sig(k, r):  # two numbers are equivalent if the final outcome and all other choice probabilities agree
                done = {n for n, _ in cont[k][1]}
                return (r[0], tuple(sorted((d[1], d[2]) for d in r[1] if d[0] == "d" and d[1] not in done)))

            outs = [[sig(k, g[k * len(GRID) + j]) for j in range(len(GRID))] for k in range(len(cont))]
            brk = [(k, GRID[j], GRID[j + 1], outs[k][j], outs[k][j + 1]) for k in range(len(cont)) for j in range(len(GRID) - 1) if outs[k][j] != outs[k][j + 1]]
            lo = [b[1] for b in brk]
            hi = [b[2] for b in brk]
            for _ in range(22):
                if not brk:
                    break
                mid = [0.5 * (x + y) for x, y in zip(lo, hi)]
                r = execute([(cont[b[0]][0], cont[b[0]][1] + ((cont[b[0]][3], float(m)),)) for b, m in zip(brk, mid)])
                for q in range(len(mid)):
                    b, m, got = brk[q], mid[q], sig(brk[q][0], r[q])
                    if got == b[3]:
                        lo[q] = m
                    elif got == b[4]:
                        hi[q] = m
                    else:  # a further outcome in between
                        brk.append((b[0], m, hi[q], got, b[4]))
                        lo.append(m)
                        hi.append(hi[q])
                        hi[q] = m
                        brk[q] = b[:4] + (got,)
            for k, (a, s, w, n) in enumerate(cont):
                cuts = sorted([hi[q] for q, b in enumerate(brk) if b[0] == k])
                edges = [0.0] + cuts + [1.0]
                for x, y in zip(edges[:-1], edges[1:]):
                    if y - x > 1e-9:
                        nxt.append((a, s + ((n, 0.5 * (x + y)),), w * (y - x)))
                        if ctx is not None:
                            ctx.trans()
        todo = nxt
    return dist, leaves, shared[0]


def explore_checked(run, rows, ctx, agrees, starts=1):
    """`explore`; if the result does not satisfy `agrees`, the decisions are taken in program order, finally without compilation.

    A compiler may run draws which do not depend on each other in another order than the program; the partition of a uniform
    number is then computed for the wrong context."""
    import jax

    from mc.core import Violation

    for order in (None, lambda n: n):
        try:
            res = explore(run, rows, ctx, starts=starts, order=order)
            if agrees(res[0]):
                return res
        except Violation:
            pass
    with jax.disable_jit():
        return explore(run, rows, ctx, starts=starts)


def near(dist, want, tol):
    """dist: {outcome: probability} against want"""
    keys = set(dist) | set(want)
    return all(abs(dist.get(k, 0.0) - want.get(k, 0.0)) <= tol for k in keys)


def matrix(basis, want, tol):
    """a predicate for `explore_checked`: the distributions of the starts are the rows of a stochastic matrix"""
    return lambda dist: all(near(dist[a], {c: want[a, k] for k, c in enumerate(basis) if want[a, k] > 0}, tol) for a in range(min(len(basis), len(dist))))
