"""C05: direct sampling of autoregressive states draws independent configurations from |psi|^p exactly."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

CONTROL_RNG = True

RULE = ("a state is (model, configuration) whose exact sampling probability was computed; a transition is one resolved random "
        "decision (a cell of a uniform number or an outcome of a discrete draw); a trace is one execution of the sampler under a "
        "script of decisions")
BOUNDS = dict(
    quick="all decision paths of one sample for every autoregressive model class: 1-4 spins (6 with zero magnetisation), 2-3 orbitals "
          "with free and fixed electron numbers, translations and spin flip, per-site bond dimensions, plaquettes, powers 1, 2, 4; all joint "
          "paths of two and four samples (of one call, of two successive calls, of a variational state) for 2 spins and 1 orbital",
    thorough="as quick with more sizes, electron numbers and parameter sets, and triples of samples",
)
ASSUMPTIONS = ["uniform numbers equal to an endpoint of [0, 1) (measure zero) are not explored", "normalised models only",
               "breakpoints of uniform numbers are found on a grid of 14 points refined by bisection (cells narrower than 1/12 next to each other with "
               "equal outcomes at both ends would be missed; the exact total distribution is compared, so that would be reported, not hidden)"]


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, L, sector=None, seed=0):
        out.append(("%s/L%d/%s/%d" % (name, L, sector, seed), dict(kind="one", name=name, L=L, sector=sector, seed=seed)))

    for b in ("ARqGPS", "ARqGPSFull", "ARPlaquetteqGPS"):
        for L in (1, 3, 4) + ((5,) if T else ()):
            add(b, L)
        for L in (2, 4, 6) + ((8,) if T else ()):
            add(b, L, 0)
        add(b + "/real", 3)
        add(b + "/sym", 3)
        add(b + "/sym", 4, 0)
        add(b + "/sym/flip", 4, 0)
        add(b + "/flip", 3)
        add(b + "/pow1", 3)
        add(b + "/pow4/sym", 3)
        add(b + "/elec", 2)
        add(b + "/elec", 3, (2, 1))
        add(b + "/elec/sym", 3, (1, 2))
        if T:
            for n in itertools.product(range(4), repeat=2):
                add(b + "/elec", 3, n)
            add(b + "/elec/sym", 4, (2, 2))
            for s in (1, 2):
                add(b, 4, None, s)
                add(b, 6, 0, s)
    add("ARPlaquetteqGPS/window", 4)
    add("ARPlaquetteqGPS/window", 6, 0)
    for s in (None, 0):
        add("ARqGPSFull/sites", 4, s)
        add("ARqGPSFull/nofast/sym", 4, s)
        add("ARqGPSModPhase", 4, s)
        add("ARqGPSModPhaseFull", 4, s)
    add("ARqGPSFull/sites/sym/flip", 4, 0)
    add("ARqGPSFull/sites/elec", 3, (2, 1))
    add("ARqGPSModPhase/sym", 4, 0)
    add("ARqGPSModPhaseFull/nofast", 3)
    add("ARqGPSModPhaseFull/elec", 2, (1, 1))
    add("ARqGPSModPhase/elec", 3, (1, 2))
    for b in ("ARqGPS", "ARqGPSFull", "ARPlaquetteqGPS", "ARqGPSModPhase", "ARqGPSFull/sites"):
        for how in ("steps", "calls", "state") + (("three",) if T else ()):
            out.append(("joint/%s/%s" % (b, how), dict(kind="joint", name=b, L=2, sector=None, how=how)))
        out.append(("joint/%s/four" % b, dict(kind="joint", name=b, L=2, sector=0, how="four")))
    for how in ("steps", "calls"):
        out.append(("joint/ARqGPS/elec/%s" % how, dict(kind="joint", name="ARqGPS/elec", L=1, sector=None, how=how)))
        out.append(("joint/ARqGPS/sym/flip/%s" % how, dict(kind="joint", name="ARqGPS/sym/flip", L=2, sector=None, how=how)))
    return out


def run(p, ctx):
    from mc import rng, zoo

    L = p["L"]
    sector = tuple(p["sector"]) if isinstance(p["sector"], list) else p["sector"]
    e = zoo.ar_entry(p["name"], L, sector)
    v = e.variables(p.get("seed", 0))
    npv = jax.tree_util.tree_map(np.asarray, v)
    prob = {c: abs(complex(e.amp(npv, c))) ** e.pw for c in e.space}
    ctx.close(sum(prob.values()), 1.0, "the reference is normalised")
    values = [int(round(float(s))) for s in e.hi.local_states]

    def conv(row):
        return tuple(int(round(float(s))) for s in row)

    if p["kind"] == "one":
        dt = np.uint8 if "elec" in e.opts else np.float64
        for dtype in (dt,) + ((np.int8,) if L == 3 else ()):
            rows = 96
            sampler = GPSKet.sampler.ARDirectSampler(e.hi, dtype=dtype, machine_pow=e.pw)
            st0 = sampler.init_state(e.model, v, seed=1)
            st0 = sampler.reset(e.model, v, st0)

            def once(scripts, starts):
                y, new = sampler.sample(e.model, v, state=st0, chain_length=rows)
                y = np.asarray(y)
                ctx.require(y.shape == (1, rows, L) and y.dtype == dtype, "shape and dtype of the samples", got=(y.shape, str(y.dtype)))
                return [conv(r) for r in y[0]]

            dist, leaves, shared = rng.explore_checked(once, rows, ctx, lambda d: rng.near(d[0], prob, 2e-6))
            ctx.require(not shared, "samples share their random numbers")
            for c in dist[0]:
                ctx.require(c in prob, "a configuration outside of the space was drawn", got=c, model=e.name)
            ctx.close([dist[0].get(c, 0.0) for c in e.space], [prob[c] for c in e.space], "distribution of the samples", atol=2e-6, rtol=0,
                      model=e.name, sector=sector)
            for c in e.space:
                ctx.state((e.name, c))
                ctx.outcome(c)
        ctx.sample(model=e.name, configurations=len(e.space), leaves=len(leaves))
        return

    how = p["how"]
    dt = np.int8 if "elec" not in e.opts else np.uint8
    steps = dict(steps=2, calls=1, four=4, three=3, state=2)[how]
    sampler = GPSKet.sampler.ARDirectSampler(e.hi, dtype=dt, machine_pow=e.pw)
    st0 = sampler.init_state(e.model, v, seed=1)
    if how == "state":
        vs = nk.vqs.MCState(sampler, e.model, n_samples=2, seed=0)
        vs.variables = v

    def once(scripts, starts):
        if how == "state":  # as a user draws them
            vs.sampler_state = st0
            vs.reset()
            return [tuple(conv(r) for r in np.asarray(vs.samples).reshape(-1, L))]
        y, new = sampler.sample(e.model, v, state=st0, chain_length=steps)
        ctx.require(y.shape == (1, steps, L), "shape", got=y.shape)
        rows = [conv(r) for r in np.asarray(y).reshape(-1, L)]
        if how == "calls":
            y, new = sampler.sample(e.model, v, state=new, chain_length=steps)
            rows += [conv(r) for r in np.asarray(y).reshape(-1, L)]
        return [tuple(rows)]

    n = {"four": 4, "three": 3}.get(how, 2)
    want = {c: float(np.prod([prob[x] for x in c])) for c in itertools.product(e.space, repeat=n)}
    dist, leaves, _ = rng.explore_checked(once, 1, ctx, lambda d: rng.near(d[0], want, 2e-6))
    for c in dist[0]:
        ctx.require(c in want, "samples outside of the space", got=c)
    ctx.close([dist[0].get(c, 0.0) for c in want], list(want.values()), "joint distribution of several samples", atol=2e-6, rtol=0, model=e.name, how=how)
    for c in want:
        ctx.state((e.name, how, c))
        ctx.outcome(c)
    ctx.sample(model=e.name, how=how, leaves=len(leaves))
