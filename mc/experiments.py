"""Runs the experiment scripts of /repo/scripts in this process, as `python -m <script>.vmc` would, with the sampling replaced by the whole configuration space
(so that a step is a function of the state that a checkpoint has to carry)."""
import contextlib
import importlib
import io
import os
import sys

import numpy as np

from mc.heavy import *

DIRS = dict(argps="/repo/scripts/ARGPS", cpd_backflow="/repo/scripts/cpd-backflow")


def full_space():
    """every state's samples are all configurations of its space, once each"""
    cls = nk.vqs.MCState
    if getattr(cls, "_mc_full", False):
        return
    cls._mc_full = True

    def samples(self):
        x = np.asarray(self.hilbert.all_states())
        return jnp.asarray(x.reshape((1,) + x.shape), dtype=self.sampler.dtype)

    cls.samples = property(samples)


def scripted_samples(chunks, seen):
    """every new set of samples is the next of the given ones; seen(state) is called when one is drawn"""
    cls = nk.vqs.MCState
    it = iter(chunks)

    def draw(self):
        seen(self)
        x = next(it)
        st = self.sampler_state  # the scripts report the acceptance of the moves
        self.sampler_state = st.replace(n_steps_proc=st.n_steps_proc + len(x))
        return jnp.asarray(x.reshape((1,) + x.shape), dtype=self.sampler.dtype)

    def sample(self, **kw):
        self._samples = draw(self)
        return self._samples

    def samples(self):
        return sample(self) if self._samples is None else self._samples

    old = cls.sample, cls.samples
    cls.sample, cls.samples = sample, property(samples)
    return lambda: (setattr(cls, "sample", old[0]), setattr(cls, "samples", old[1]))


def load(script, main="vmc"):
    """the script's modules, as a new process sees them"""
    from absl import flags
    from flax import serialization

    for d in DIRS.values():
        if d in sys.path:
            sys.path.remove(d)
    sys.path.insert(0, DIRS[script])
    for m in [m for m in sys.modules if m.split(".")[0] in DIRS]:
        del sys.modules[m]
    F = flags.FLAGS
    for name in [f for f in F if f in ("config", "workdir") or f.startswith("config.")]:
        delattr(F, name)
    reg = serialization._STATE_DICT_REGISTRY
    for t in [t for t in reg if issubclass(t, nk.driver.AbstractVariationalDriver)]:
        del reg[t]
    return importlib.import_module(script + "." + main)


def run(script, argv, main="vmc"):
    from absl import flags, logging

    mod = load(script, main)
    F = flags.FLAGS
    F.unparse_flags()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        logging.set_verbosity(logging.ERROR)
        F([main] + argv)
        mod.main([main])


def cache(path):
    """compiled programs are kept for the runs of one case (they are the same ones every time)"""
    from jax.experimental.compilation_cache import compilation_cache

    compilation_cache.reset_cache()
    jax.config.update("jax_compilation_cache_dir", path)
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)


def module(name):
    d = DIRS[name.split(".")[0]]
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module(name)
