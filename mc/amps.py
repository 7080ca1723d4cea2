"""Shared by C08 and C09: amplitudes of a model against its defining formula on every configuration."""
import numpy as np

from mc import zoo
from mc.heavy import *


def check_amplitudes(e, ctx, seeds=(0, 1), deep=True):
    space = e.space
    N = len(space)
    for seed in seeds:
        v = e.variables(seed)
        npv = jax.tree_util.tree_map(np.asarray, v)
        expected = np.array([e.amp(npv, c) for c in space], dtype=complex)
        f = jax.jit(lambda v, x: e.model.apply(v, x))
        x = e.inputs(space)
        got = np.asarray(f(v, x))
        ctx.log_close(got, expected, "amplitudes", model=e.name, seed=seed, n=getattr(e.hi, "_n_elec", None))
        for k, c in enumerate(space):
            ctx.state((e.name, seed, c))
        ctx.trans(N)
        ctx.trace()
        ctx.outcome(np.round(expected, 9).tobytes())
        if not deep or seed != seeds[0]:
            continue
        # the amplitude of a configuration does not depend on the batch around it
        one = np.concatenate([np.asarray(e.model.apply(v, x[k:k + 1])).reshape(-1) for k in range(min(N, 6))])
        ctx.log_close(one, expected[: len(one)], "amplitudes one by one", model=e.name)
        order = np.concatenate([np.arange(N)[::-1], np.arange(N)[: max(1, N // 2)]])
        ctx.log_close(np.asarray(f(v, x[order])), expected[order], "amplitudes in another batch", model=e.name)
        ctx.trans(len(order) + len(one))
        if not e.electron_input:
            for dt in (np.int64, np.float64, np.int8):
                if isinstance(e.hi, FermionicDiscreteHilbert) and dt == np.float64 and not e.name.startswith("Slater/"):
                    continue
                y = e.inputs(space, dt)
                ctx.log_close(np.asarray(f(v, y)), expected, "amplitudes for another input type", model=e.name, dtype=str(dt))
                ctx.trans(N)
        # through a variational state
        if not e.electron_input:
            vs = nk.vqs.MCState(nk.sampler.ExactSampler(e.hi, dtype=x.dtype), e.model, n_samples=2, seed=0)
            vs.variables = v
            ctx.log_close(np.asarray(vs.log_value(x)), expected, "amplitudes of the variational state", model=e.name)
            ctx.trace()
    ctx.sample(model=e.name, configurations=N)


def check_extreme(e, ctx, size=800.0, which=("epsilon",)):
    """The same for parameters so large that amplitudes leave the range of floating-point numbers: the logarithm, which is what
    the model returns, still has to be right. The formula is evaluated in extended precision, whose range is large enough."""
    v = e.variables(7)
    x = e.inputs(e.space)
    f = jax.jit(lambda v, x: e.model.apply(v, x))

    def scaled(fac):
        def one(path, a):
            key = str(getattr(path[-1], "key", path[-1]))
            return a * fac if key.startswith(tuple(which)) else a
        return {k: (jax.tree_util.tree_map_with_path(one, w) if k == "params" else w) for k, w in v.items()}

    def logs(v):
        wide = lambda a: np.asarray(a).astype(np.clongdouble if np.iscomplexobj(a) else np.longdouble)
        npv = {k: (jax.tree_util.tree_map(wide, w) if k == "params" else w) for k, w in v.items()}
        amp = np.array([e.amp(npv, c) for c in e.space], dtype=np.clongdouble)
        with np.errstate(divide="ignore"):
            return np.log(np.abs(amp)).astype(float), np.angle(amp).astype(float)

    lo = 1.0
    for fac in np.geomspace(1.0, 200.0, 30):  # the largest factor which stays within the wanted size
        with np.errstate(all="ignore"):
            re, _ = logs(scaled(fac))
        fin = re[np.isfinite(re)]
        if len(fin) < len(re) or np.max(np.abs(fin)) > 3 * size:
            break
        lo = fac
        if np.max(np.abs(fin)) > size:
            break
    w = scaled(lo)
    re, ph = logs(w)
    got = np.asarray(f(w, x), dtype=complex)
    ctx.close(got.real, re, "log-modulus for large parameters", rtol=1e-8, atol=1e-6, model=e.name, factor=float(lo))
    ctx.close(np.exp(1j * got.imag), np.exp(1j * ph), "phase for large parameters", atol=1e-5, model=e.name, factor=float(lo))
    ctx.trans(len(e.space))
    ctx.trace()
    return float(np.max(np.abs(re)))
