"""C04: autoregressive states are normalised, causal and equal the product of their conditionals."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (model, parameters, configuration) whose amplitude and conditionals at every prefix were compared with the "
        "explicit product of conditionals; a transition is one conditional (prefix, next local state); a trace is one "
        "evaluation of the whole configuration space")
BOUNDS = dict(
    quick="every configuration of 1-4, 7 and 8 spins (2-8 in the zero-magnetisation sector) and 2-5 orbitals, every model class and option: plain, "
          "fully variational, plaquette, modulus-phase; per-site bond dimensions; lattice symmetries and spin flip; unconstrained, "
          "zero magnetisation, fixed electron numbers; other normalisation powers, no normalisation; also parameters so large that "
          "log-amplitudes reach several hundreds",
    thorough="as quick with more sizes and parameter sets",
)
ASSUMPTIONS = ["the built-in magnetisation constraint is for total_sz=0 on an even number of spins (as documented); electron numbers "
               "are constrained by functions which the user supplies", "evaluated at two generic parameter points"]


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, L, sector=None):
        out.append(("%s/L%d/%s" % (name, L, sector), dict(name=name, L=L, sector=sector, T=T)))

    bases = ["ARqGPS", "ARqGPSFull", "ARPlaquetteqGPS"]
    for b in bases:
        for L in (1, 2, 3, 4) + ((5, 6) if T else ()):
            add(b, L)
        for L in (2, 4, 6):
            add(b, L, 0)
        add(b + "/real", 4)
        add(b + "/real", 4, 0)
        add(b + "/sym", 4)
        add(b + "/sym", 4, 0)
        add(b + "/sym/flip", 4, 0)
        add(b + "/flip", 3)
        add(b + "/sym/flip/real", 3)
        add(b + "/raw", 3)
        add(b + "/raw/sym", 4, 0)
        add(b + "/pow1", 3)
        add(b + "/pow4/sym", 3)
        add(b + "/elec", 2)
        add(b + "/elec", 3, (2, 1))
        add(b + "/elec", 3, (1, 1))
        add(b + "/elec/real", 2, (1, 1))
        add(b + "/elec/sym", 3, (1, 2))
        add(b, 8)
        add(b, 8, 0)
        add(b + "/elec", 5, (4, 2))
        if T:
            for n in itertools.product(range(4), repeat=2):
                add(b + "/elec", 3, n)
            add(b + "/elec/sym", 4, (2, 2))
    for L, s in ((3, None), (4, None), (4, 0), (6, 0)):
        add("ARPlaquetteqGPS/window", L, s)
    for s in (None, 0):
        add("ARqGPSFull/sites", 4, s)
        add("ARqGPSFull/sites/sym/flip", 4, s)
        add("ARqGPSFull/nofast/sym", 4, s)
        add("ARqGPSModPhase", 4, s)
        add("ARqGPSModPhase/sym", 4, s)
        add("ARqGPSModPhaseFull", 4, s)
        add("ARqGPSModPhaseFull/nofast", 4, s)
    add("ARqGPSFull/sites/elec", 3, (2, 1))
    add("ARqGPSFull/sites", 3)
    add("ARqGPSFull/sites", 8, 0)
    add("ARqGPSModPhase", 8, 0)
    add("ARqGPSModPhaseFull", 7)
    add("ARPlaquetteqGPS/window", 8, 0)
    add("ARqGPSModPhaseFull/elec", 2, (1, 1))
    add("ARqGPSModPhase/elec", 3, (1, 2))
    return out


def run(p, ctx):
    from mc import zoo, amps

    L = p["L"]
    sector = tuple(p["sector"]) if isinstance(p["sector"], list) else p["sector"]
    e = zoo.ar_entry(p["name"], L, sector)
    # (batches, input types and the variational state for a selection of the models)
    amps.check_amplitudes(e, ctx, seeds=(0, 1, 2, 3) if p["T"] else (0, 1), deep=p["T"] or L == 3 or (L == 4 and not e.opts))
    if L in (3, 4) or "elec" in e.opts:
        amps.check_extreme(e, ctx)
    v = e.variables(0)
    npv = jax.tree_util.tree_map(np.asarray, v)
    m = e.model
    x = e.inputs(e.space)
    psi = np.exp(np.asarray(m.apply(v, x), dtype=complex))
    normalised = "raw" not in e.opts
    if normalised:
        ctx.close(np.sum(np.abs(psi) ** e.pw), 1.0, "normalisation", model=e.name)
    # conditionals of every configuration of the unconstrained space whose prefixes can be reached
    cond = np.asarray(m.apply(v, x, method=m.conditionals))
    ctx.require(cond.shape == (len(e.space), L, e.D), "shape of the conditionals", got=cond.shape)
    seen = {}
    for k, c in enumerate(e.space):
        y = e.loc(c)
        for i in range(L):
            want = e.conditional(npv["params"], y[:i])[1]
            ctx.close(cond[k, i], want, "conditional distribution", model=e.name, prefix=y[:i], rtol=1e-8)
            if normalised:
                ctx.close(np.sum(cond[k, i]), 1.0, "conditionals sum to one", model=e.name, prefix=y[:i])
            pre = tuple(y[:i])
            ctx.close(cond[k, i], seen.setdefault(pre, cond[k, i]), "causality", model=e.name, prefix=pre)
            ctx.trans(e.D)
    if not ({"sym", "flip"} & e.opts):
        prod = np.array([np.prod([cond[k, i, o] for i, o in enumerate(e.loc(c))]) for k, c in enumerate(e.space)])
        ctx.close(np.abs(psi) ** e.pw, prod, "probability is the product of the conditionals", model=e.name)
        ctx.require(len(e.space) == len(e.everything) or np.all(prod > 0), "no configuration of the sector is excluded")
    # outside of the sector nothing (a prefix which no configuration of the sector continues has no distribution)
    if sector is not None and normalised and "elec" not in e.opts:
        rest = [c for c in e.everything if c not in set(e.space)]
        if rest:
            out = np.asarray(m.apply(v, e.inputs(rest)), dtype=complex)
            ctx.require(np.all(out.real < -1e3), "amplitudes outside of the sector vanish", model=e.name, got=out.real.max())
            ctx.trans(len(rest))
    # what a variational optimisation differentiates: finite and right
    if p["T"] and L <= 4 or L == 3 or (L == 4 and ("ModPhase" in e.name or not e.opts)) or (L, sector) == (2, 0):
        D = jax.tree_util.tree_map(lambda w: jnp.asarray(zoo.generic(w.shape, 7, "real"), w.dtype), v["params"])
        f = lambda t: m.apply({**v, "params": jax.tree_util.tree_map(lambda a, b: a + t * b, v["params"], D)}, x)
        g = lambda t: (jnp.real(f(t)), jnp.imag(f(t)))
        got = jax.jvp(g, (0.0,), (1.0,))[1]
        h = 1e-5
        num = (np.asarray(f(h)) - np.asarray(f(-h)))
        num = np.log(np.exp(num)) / (2 * h)  # phases are only defined modulo 2 pi
        ctx.close(np.asarray(got[0]) + 1j * np.asarray(got[1]), num, "derivative", rtol=1e-4, atol=1e-5, model=e.name)
        # and in reverse mode
        r = jax.grad(lambda q: jnp.sum(jnp.real(m.apply({**v, "params": q}, x)) * jnp.arange(1, len(e.space) + 1)))(v["params"])
        ctx.require(all(np.all(np.isfinite(np.asarray(w))) for w in jax.tree_util.tree_leaves(r)), "gradients are finite", model=e.name)
