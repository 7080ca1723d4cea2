"""Wavefunctions which are nothing but a table of independent log-amplitudes, one per configuration: the most
general model, so that agreement for them is agreement for every model."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from typing import Any


class Table(nn.Module):
    hilbert: Any
    dtype: Any = jnp.complex128

    def lookup(self, loc):
        L, q = self.hilbert.size, self.hilbert.local_size
        table = self.param("table", nn.initializers.zeros, (q**L,), self.dtype)
        idx = jnp.sum(loc.astype(jnp.int64) * jnp.asarray([q ** (L - 1 - k) for k in range(L)]), axis=-1)
        return table[idx]

    @nn.compact
    def __call__(self, x):
        return self.lookup(self.hilbert.states_to_local_indices(x))


class FastTable(Table):
    """The same with the cached-update interface of the fast samplers and on-the-fly operators: of several entries
    for one site the first holds the new occupancy, the others are dummies repeating the original one."""
    apply_fast_update: bool = True

    @nn.compact
    def __call__(self, x, cache_intermediates=False, update_sites=None):
        loc = self.hilbert.states_to_local_indices(x)
        if update_sites is not None or cache_intermediates:
            saved = self.variable("intermediates_cache", "samples", lambda: None)
        if update_sites is not None:
            def one(conf, sites, occ):
                for k in reversed(range(sites.shape[0])):
                    conf = conf.at[sites[k]].set(occ[k])
                return conf
            loc = jax.vmap(one)(saved.value, update_sites, loc.astype(saved.value.dtype))
        if cache_intermediates:
            saved.value = loc
        return self.lookup(loc)


def log_table(n, kind, seed=0, zeros=()):
    """Generic log-amplitudes; kind complex or real (positive amplitudes); some may vanish."""
    rng = np.random.RandomState(4321 + seed)
    v = rng.uniform(-0.8, 0.8, size=n)
    if kind == "complex":
        v = v + 1j * rng.uniform(-np.pi, np.pi, size=n)
    for z in zeros:
        v[z] = -np.inf
    return v


def config_index(conf, q):
    i = 0
    for c in conf:
        i = i * q + int(c)
    return i
