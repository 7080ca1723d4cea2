"""Bookkeeping shared by all checks: what a case is, how it counts what it
explored and how it reports a disagreement with its reference model."""
import hashlib
import json

import numpy as np


class Violation(Exception):
    """The real code disagreed with the reference model."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, np.generic):
        return jsonable(o.item())
    try:
        a = np.asarray(o)
        if a.dtype != object:
            if a.size > 400:
                return {"shape": list(a.shape), "head": jsonable(a.ravel()[:50].tolist())}
            return jsonable(a.tolist())
    except Exception:
        pass
    return repr(o)


def digest(key):
    if isinstance(key, np.ndarray):
        key = (key.shape, key.tobytes())
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


class Ctx:
    """Counts what one case explored.

    state(key)    a node of the explored space at which the observables of the real
                  code were compared with the reference (deduplicated by key)
    trans(n)      edges of the explored space, i.e. executed operations/branches
                  (matrix elements, moves, random outcomes, crash points ...)
    trace(n)      complete executions of the real code compared end to end
    outcome(key)  observed outcomes (to show that the exploration is not vacuous)
    """

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.n_trans = 0
        self.n_traces = 0
        self.n_evals = 0
        self.outcomes = set()
        self.samples = []
        self.caps = []

    def state(self, key):
        self.states.add(digest((self.case, key)))

    def trans(self, n=1):
        self.n_trans += int(n)

    def trace(self, n=1):
        self.n_traces += int(n)

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(digest(key))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(dict(case=self.case, **kw)))

    def require(self, cond, what, **detail):
        self.n_evals += 1
        if not bool(cond):
            raise Violation(what, **detail)

    def close(self, got, ref, what, rtol=1e-7, atol=1e-8, **detail):
        """got == ref elementwise within floating-point slack (nan never agrees)."""
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            raise Violation(what + ": shape", got=list(got.shape), expected=list(ref.shape), **detail)
        self.n_evals += max(1, got.size)
        with np.errstate(all="ignore"):
            d = np.abs(got.astype(complex) - ref.astype(complex))
            same_inf = (got == ref)
            bad = ~((d <= atol + rtol * np.abs(ref)) | same_inf)
        if np.any(bad):
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            raise Violation(
                what,
                index=[int(k) for k in i],
                got=got[i].item(),
                expected=ref[i].item(),
                n_bad=int(np.sum(bad)),
                **detail,
            )
        if got.size:
            self.outcome(np.round(got.astype(complex), 9).tobytes())

    def log_close(self, got, ref_amp, what, rtol=1e-6, atol=1e-9, **detail):
        """exp(got) == ref_amp: a logarithm is only defined up to 2 pi i and a
        vanishing amplitude may be any sufficiently negative number."""
        got = np.asarray(got).astype(complex)
        ref = np.asarray(ref_amp).astype(complex)
        if got.shape != ref.shape:
            raise Violation(what + ": shape", got=list(got.shape), expected=list(ref.shape), **detail)
        re = np.where(np.isneginf(got.real), -1e4, got.real)
        im = np.where(np.isneginf(got.real), 0.0, got.imag)
        with np.errstate(all="ignore"):
            amp = np.exp(re + 1j * im)
        self.close(amp, ref, what, rtol=rtol, atol=atol, **detail)

    def result(self):
        return dict(
            states=[s.hex() for s in self.states],
            trans=self.n_trans,
            traces=self.n_traces,
            evals=self.n_evals,
            outcomes=[s.hex() for s in self.outcomes],
            samples=self.samples,
            caps=self.caps,
        )


# Generic parameter values: fixed sequences (nothing here is sampled at run time), bounded
# away from zero so that no identity is checked at an accidentally degenerate point.
def generic(shape, seed=0, kind="complex", lo=0.35, hi=1.25):
    rng = np.random.RandomState(1000003 * (seed + 1) % (2**31 - 1))
    mag = lo + (hi - lo) * rng.rand(*shape)
    if kind == "complex":
        return mag * np.exp(2j * np.pi * rng.rand(*shape))
    if kind == "real":
        return mag * np.where(rng.rand(*shape) < 0.5, -1.0, 1.0)
    if kind == "positive":
        return mag
    raise ValueError(kind)


def fill(tree, seed=0, lo=0.35, hi=1.25, scale=1.0):
    """Replaces every array of a parameter tree by generic values of the same shape and dtype."""
    import jax

    leaves, treedef = jax.tree_util.tree_flatten(tree)
    out = []
    for k, leaf in enumerate(leaves):
        kind = "complex" if np.issubdtype(np.asarray(leaf).dtype, np.complexfloating) else "real"
        v = scale * generic(np.shape(leaf), seed * 131 + k, kind, lo, hi)
        out.append(jax.numpy.asarray(v, dtype=leaf.dtype))
    return jax.tree_util.tree_unflatten(treedef, out)
