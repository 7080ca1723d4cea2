"""C09: Gaussian process state amplitudes follow their product formula and carry the symmetries they were given."""
import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (model, parameters, configuration) whose amplitude was compared with the explicit product/sum formula; a "
        "transition is one evaluated amplitude; a trace is one evaluation of the whole configuration space")
BOUNDS = dict(
    quick="qGPS, plaquette and segmented GPS over spins (1-9 sites, all sectors for the segmented one, spin one), electrons (2-4 and 6 "
          "orbitals); without symmetry, with lattice automorphisms, spin flip and both, with kernel and projective "
          "symmetrisation; complex and real parameters; also parameters so large that log-amplitudes reach several hundreds",
    thorough="as quick with more sizes and parameter sets",
)
ASSUMPTIONS = ["site products are evaluated at two generic parameter points (they are polynomials in the parameters)"]


def cases(tier):
    out = []

    def add(phys, name, L, **kw):
        out.append(("%s/L%d/%s" % (name, L, "_".join(str(v) for v in kw.values())), dict(phys=phys, name=name, L=L, T=tier == "thorough", **kw)))

    more = tier == "thorough"
    for L in (1, 2, 3, 4) + ((5, 6) if more else ()):
        add("spin", "qGPS", L)
        add("spin", "qGPS/flip", L)
        if L > 1:
            add("spin", "qGPS/auto", L)
            add("spin", "qGPS/auto/flip", L)
        if L > 2:
            add("spin", "PlaquetteqGPS/pair", L)
    add("spin", "qGPS/auto/flip", 5, sz=None)
    add("spin", "qGPS/auto/flip/real", 6, sz=0)
    add("spin", "qGPS/auto/star", 4)
    add("spin", "qGPS/auto/flip/sumexp", 4)
    add("spin", "qGPS/sumexp/auto", 3)
    add("spin", "qGPS/real", 3)
    add("spin", "qGPS/one", 3)
    add("spin", "qGPS/one/auto", 3)
    add("spin", "PlaquetteqGPS", 4)
    add("spin", "PlaquetteqGPS/auto/flip", 4)
    add("spin", "PlaquetteqGPS/auto", 3)
    add("spin", "PlaquetteqGPS/pair/flip", 4)
    add("spin", "PlaquetteqGPS/pair/auto/real", 4)
    add("spin", "PlaquetteqGPS/one", 3)
    for L in (2, 3, 4, 5) + ((6,) if more else ()):
        for k in range(L + 1):
            sz = k - L / 2
            add("spin", "SegGPS", L, sz=int(sz) if sz == int(sz) else sz)
    add("spin", "SegGPS/real", 4, sz=0)
    for L, n in [(2, (1, 1)), (3, (2, 1)), (3, (1, 2)), (3, (3, 1)), (4, (2, 2)), (3, (0, 2)), (4, (1, 3))]:
        add("fermion", "SegGPS", L, n=n)
    add("fermion", "SegGPS/real", 3, n=(2, 1))
    for L, n in [(2, None), (3, None), (3, (2, 1)), (4, (2, 2))]:
        add("fermion", "qGPS", L, n=n)
        add("fermion", "qGPS/sym", L, n=n)
        if L > 2:
            add("fermion", "PlaquetteqGPS/pair", L, n=n)
            add("fermion", "PlaquetteqGPS/sym", L, n=n)
    # larger systems
    for name in ("qGPS/flip", "PlaquetteqGPS/pair"):
        add("spin", name, 9)
    add("spin", "qGPS/auto/flip", 7)
    add("spin", "PlaquetteqGPS/auto/flip", 6, sz=0)
    add("spin", "SegGPS", 8, sz=1)
    for name in ("qGPS/sym", "PlaquetteqGPS/pair", "SegGPS"):
        add("fermion", name, 6, n=(4, 2))
    # the totally polarised segmented sectors have a single configuration in netket's enumeration
    return out


def run(p, ctx):
    from mc import amps, zoo

    e = zoo.entry(p)
    amps.check_amplitudes(e, ctx, seeds=(0, 1, 2, 3) if p["T"] else (0, 1))
    if p["L"] in (3, 4):
        amps.check_extreme(e, ctx)
    # symmetrised states are invariant: a consequence of the formula, checked on the real amplitudes
    opts = set(p["name"].split("/"))
    if p["phys"] == "spin" and opts & {"auto", "flip"}:
        v = e.variables(0)
        val = dict(zip(e.space, np.exp(np.asarray(e.model.apply(v, e.inputs(e.space)), dtype=complex))))
        edges = [(0, i) for i in range(1, p["L"])] if "star" in opts else [(i, (i + 1) % p["L"]) for i in range(p["L"] if p["L"] > 2 else 1)]
        cols = zoo.automorphisms(p["L"], edges).T if "auto" in opts else [tuple(range(p["L"]))]
        for c in e.space:
            for g in cols:
                d = tuple(c[k] for k in g)
                ctx.close(val[d], val[c], "invariance under a lattice symmetry", model=e.name, x=c, gx=d)
                ctx.trans()
            if "flip" in opts and tuple(-s for s in c) in val:
                ctx.close(val[tuple(-s for s in c)], val[c], "invariance under a spin flip", model=e.name, x=c)
                ctx.trans()
