"""Dense reference quantities of variational Monte Carlo: derivatives of log psi, local energies, in the real representation
of the parameters (all real parts, then all imaginary parts)."""
import numpy as np

from mc.heavy import *


def jacobian(f, params):
    """(samples, parameters) derivatives along the real (and imaginary) parts of the parameters; f maps parameters to log psi of all samples"""
    leaves = jax.tree_util.tree_leaves(params)
    cplx = any(jnp.iscomplexobj(l) for l in leaves)

    def along(unit):
        z = jax.tree_util.tree_map(lambda q: jnp.zeros(q.shape), params)
        g = lambda d: f(jax.tree_util.tree_map(lambda q, x: q + unit * x, params, d))
        re, im = jax.jacrev(lambda d: jnp.real(g(d)))(z), jax.jacrev(lambda d: jnp.imag(g(d)))(z)
        out = [np.asarray(a) + 1j * np.asarray(b) for a, b in zip(jax.tree_util.tree_leaves(re), jax.tree_util.tree_leaves(im))]
        return np.concatenate([a.reshape(a.shape[0], -1) for a in out], axis=1)

    return np.concatenate([along(1.0), along(1.0j)], axis=1) if cplx else along(1.0)


def real_vector(tree):
    v = np.concatenate([np.asarray(l).reshape(-1) for l in jax.tree_util.tree_leaves(tree)])
    return np.concatenate([v.real, v.imag]) if np.iscomplexobj(v) else v


def dense_op(op, space, to_int=lambda t: int(round(float(t)))):
    order = [tuple(to_int(t) for t in r) for r in np.asarray(op.hilbert.all_states())]
    perm = [order.index(tuple(c)) for c in space]
    return np.asarray(op.to_dense())[np.ix_(perm, perm)]


def unravel(vec, like):
    """a parameter tree from the real representation"""
    leaves, tree = jax.tree_util.tree_flatten(like)
    cplx = any(jnp.iscomplexobj(l) for l in leaves)
    n = sum(l.size for l in leaves)
    v = vec[:n] + 1j * vec[n:] if cplx else vec
    out, k = [], 0
    for l in leaves:
        out.append(np.asarray(v[k:k + l.size]).reshape(l.shape))
        k += l.size
    return jax.tree_util.tree_unflatten(tree, out)


def jitted(f, like):
    """the same Jacobian compiled once"""
    cplx = any(jnp.iscomplexobj(l) for l in jax.tree_util.tree_leaves(like))

    def along(q, unit):
        z = jax.tree_util.tree_map(lambda a: jnp.zeros(a.shape), q)
        g = lambda d: f(jax.tree_util.tree_map(lambda a, x: a + unit * x, q, d))
        re, im = jax.jacrev(lambda d: jnp.real(g(d)))(z), jax.jacrev(lambda d: jnp.imag(g(d)))(z)
        out = [a + 1j * b for a, b in zip(jax.tree_util.tree_leaves(re), jax.tree_util.tree_leaves(im))]
        return jnp.concatenate([a.reshape(a.shape[0], -1) for a in out], axis=1)

    h = jax.jit(lambda q: jnp.concatenate([along(q, 1.0), along(q, 1.0j)], axis=1) if cplx else along(q, 1.0))
    return lambda q: np.asarray(h(q))


class Phase(flax.linen.Module):
    """two real fields: log psi = a.s + i b.ss, a model with real parameters and a complex amplitude"""

    @flax.linen.compact
    def __call__(self, x):
        L = x.shape[-1]
        a = self.param("a", flax.linen.initializers.normal(1.0), (L,), jnp.float64)
        b = self.param("b", flax.linen.initializers.normal(1.0), (L, L), jnp.float64)
        x = x.astype(jnp.float64)
        return jnp.tanh(x @ a) + 1j * jnp.einsum("...i,ij,...j->...", x, jnp.tanh(b), x + 0.3)


class Two(flax.linen.Module):
    """two complex fields, holomorphic"""

    @flax.linen.compact
    def __call__(self, x):
        L = x.shape[-1]
        a = self.param("a", flax.linen.initializers.normal(1.0), (L,), jnp.complex128)
        b = self.param("b", flax.linen.initializers.normal(1.0), (L, L), jnp.complex128)
        x = x.astype(jnp.complex128)
        return jnp.sinh(0.5 * (x @ a)) + jnp.einsum("...i,ij,...j->...", x, 0.3 * b * b, x + 0.3)


class Few(flax.linen.Module):
    """one or two parameters: fewer than there are samples"""
    dtype: object = jnp.complex128
    n: int = 1

    @flax.linen.compact
    def __call__(self, x):
        a = self.param("a", flax.linen.initializers.normal(1.0), (self.n,), self.dtype)
        x = x.astype(self.dtype)
        f = jnp.stack([0.7 * x[..., 0] - 0.2 * x[..., 1] + 0.4 * x[..., 0] * x[..., 1], 0.3 * x[..., 0] + 0.5 * x[..., 1]], axis=-1)
        return jnp.sum(jnp.sinh(0.5 * a * f[..., :self.n]), axis=-1)


def few(name):
    """'few/<parameters>/<complex or real>'"""
    _, n, kind = name.split("/")
    return Few(dtype=jnp.complex128 if kind == "complex" else jnp.float64, n=int(n))
