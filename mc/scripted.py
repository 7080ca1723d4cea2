"""Samplers and spaces whose random outcomes are handed out from a script (environment model of the sampling-based states)."""
import numpy as np

from mc.heavy import *

QUEUE = []  # the configurations that will be "drawn", in order
RANDOM = []  # the random states that will be "drawn", in order
DRAWN = []


class OutOfScript(Exception):
    pass


class ScriptedSampler(nk.sampler.MetropolisSampler):
    """Hands out QUEUE; counts what was taken in DRAWN."""

    def _sample_chain(self, machine, parameters, state, chain_length, *args, **kwargs):
        n = self.n_chains_per_rank * chain_length
        if len(QUEUE) < n:
            raise OutOfScript()
        take = [QUEUE.pop(0) for _ in range(n)]
        DRAWN.extend(take)
        x = np.array(take, dtype=self.dtype).reshape(self.n_chains_per_rank, chain_length, self.hilbert.size)
        return jnp.asarray(x), state.replace(σ=jnp.asarray(x[:, -1])) if chain_length else state

    def _reset(self, machine, parameters, state):
        return state

    def sample(self, machine, parameters, *, state=None, chain_length=1, **kw):
        return self._sample_chain(machine, parameters, state, chain_length)


def make(hi, n_chains=1, dtype=np.float64, **kw):
    return ScriptedSampler(hi, nk.sampler.rules.LocalRule(), n_chains=n_chains, dtype=dtype, **kw)


class ScriptedSpin(nk.hilbert.Spin):
    def random_state(self, key=None, size=None, dtype=np.float64):
        n = 1 if size is None else int(np.prod(size))
        if len(RANDOM) < n:
            raise OutOfScript()
        x = jnp.asarray(np.array([RANDOM.pop(0) for _ in range(n)], dtype=dtype))
        return x[0] if size is None else x.reshape((size if isinstance(size, tuple) else (size,)) + (self.size,))
