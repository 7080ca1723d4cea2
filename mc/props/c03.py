"""C03: cached fast updates equal the evaluation from scratch."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is (model, configuration, cached intermediates); a transition is one fast update (sites, new occupancies) whose amplitude "
        "was compared with the evaluation of the new configuration from scratch; a trace is a history of updates, each starting "
        "from the cache the previous one left")
BOUNDS = dict(
    quick="every pair of configurations of a space which differ in up to four sites (2-5 orbitals or spins), the changed sites in both orders, "
          "padded with unchanged and repeated sites; the same on 7-9 sites for one configuration and all of those one move away from it; every history of three updates on the smaller spaces; for every model with cached "
          "updates and its options",
    thorough="as quick with more sectors, larger lattices, further orders and paddings and four updates",
)
ASSUMPTIONS = ["a site may be repeated in the list of updates if the later entries carry its old occupancy (what the Hamiltonians do)",
               "cached updates need non-vanishing parameters and a non-vanishing amplitude of the configuration they start from"]

FERMION = [
    ("qGPS", [(2, None), (3, (2, 1)), (4, (2, 2))]), ("qGPS/sym", [(3, (2, 1)), (4, (2, 2))]), ("qGPS/real", [(3, (1, 2))]),
    ("PlaquetteqGPS", [(3, (2, 1))]), ("PlaquetteqGPS/pair", [(2, None), (4, (2, 2))]), ("PlaquetteqGPS/pair/sym", [(3, (2, 1))]),
    ("Slater/restricted", [(2, (1, 1)), (4, (2, 2))]), ("Slater/restricted/lin", [(3, (1, 1)), (3, (2, 2))]),
    ("Slater/restricted/2det/sym", [(3, (1, 1)), (4, (2, 2))]),
    ("Slater/unrestricted", [(3, (2, 1)), (4, (2, 2)), (3, (3, 2)), (5, (3, 1))]), ("Slater/unrestricted/lin", [(3, (2, 1)), (4, (2, 2))]),
    ("Slater/unrestricted/2det/sym", [(3, (1, 2))]), ("Slater/unrestricted/2det/sym/lin", [(3, (1, 2))]),
    ("Slater/unrestricted/rot", [(3, (2, 1))]), ("Slater/unrestricted/rot/2det/sym", [(3, (1, 1))]),
    ("Slater/general", [(3, (2, 1)), (4, (2, 2)), (5, (1, 3))]), ("Slater/general/lin", [(3, (2, 1))]), ("Slater/general/2det/sym", [(3, (1, 2))]),
    ("Slater/unrestricted/real", [(3, (2, 1))]), ("Slater/general/real/lin", [(3, (1, 2))]),
    ("SlaterqGPS/restricted", [(3, (1, 1))]), ("SlaterqGPS/unrestricted/2det/sym", [(3, (2, 1))]), ("SlaterqGPS/general/sym", [(3, (1, 2))]),
    ("SlaterqGPS/unrestricted", [(4, (2, 2))]),
    ("ASymmqGPS/unrestricted", [(3, (2, 1)), (4, (2, 2))]), ("ASymmqGPS/unrestricted/2det/sym", [(3, (1, 2))]),
    ("ASymmqGPS/restricted/2det/sym/projective", [(3, (1, 1))]), ("ASymmqGPSProd/unrestricted/3det/sym", [(3, (2, 1))]),
    ("ASymmqGPSProd/restricted/3det", [(3, (1, 1))]),
    ("CPDBackflow/restricted", [(3, (1, 1)), (4, (2, 2))]), ("CPDBackflow/unrestricted", [(3, (2, 1)), (5, (1, 3))]), ("CPDBackflow/general", [(3, (1, 2))]),
    ("CPDBackflow/unrestricted/real", [(4, (2, 2))]),
    ("Backflow/restricted", [(3, (1, 1))]), ("Backflow/unrestricted/sym", [(3, (2, 1))]), ("Backflow/general", [(3, (1, 2))]),
    ("Backflow/general/noorb/sym", [(3, (2, 1))]),
]
SPIN = [("qGPS", [(3, None), (4, 0)]), ("qGPS/auto", [(4, None)]), ("qGPS/auto/flip", [(3, None), (4, 0)]), ("qGPS/flip", [(3, None)]),
        ("qGPS/one", [(2, None), (3, None)]), ("qGPS/auto/flip/sumexp", [(4, 0)]), ("qGPS/auto/flip/real", [(4, None)]),
        ("PlaquetteqGPS", [(3, None), (4, 0)]), ("PlaquetteqGPS/pair", [(4, None)]), ("PlaquetteqGPS/auto/flip", [(3, None)]),
        ("PlaquetteqGPS/pair/auto/flip", [(4, 0)]), ("PlaquetteqGPS/one", [(3, None)])]
AR = [("ARqGPSFull", [(3, None), (4, 0)]), ("ARqGPSFull/sym", [(4, None)]), ("ARqGPSFull/sym/flip", [(4, 0), (3, None)]), ("ARqGPSFull/sites", [(3, None), (4, 0)]),
      ("ARqGPSFull/sites/sym", [(3, None)]), ("ARqGPSFull/raw/sym", [(3, None)]), ("ARqGPSFull/elec", [(2, None), (3, (2, 1))]),
      ("ARqGPSFull/elec/sym", [(3, (1, 2))]), ("ARqGPSModPhaseFull", [(3, None), (4, 0)]), ("ARqGPSModPhaseFull/elec", [(3, (1, 1))]),
      ("ARqGPSFull/real/flip", [(3, None)])]
MORE = {"fermion": [(4, (1, 3)), (4, (3, 2))], "spin": [(5, None), (6, 0)], "ar": [(5, None), (6, 0)]}

BIG = [("fermion", "qGPS", 9, (4, 3)), ("fermion", "Slater/unrestricted", 8, (4, 3)), ("fermion", "Slater/general", 7, (3, 3)), ("fermion", "CPDBackflow/unrestricted", 7, (4, 3)),
       ("fermion", "SlaterqGPS/restricted", 7, (3, 3)), ("fermion", "ASymmqGPS/unrestricted", 7, (3, 2)), ("spin", "qGPS/auto/flip", 8, 0), ("spin", "PlaquetteqGPS/pair", 8, 0),
       ("ar", "ARqGPSFull", 8, 0)]


def around(space):
    """one configuration (neither polarised nor ordered) and those one electron hop or exchange of two spins away"""
    c = space[(5 * len(space)) // 11]
    some = [d for d in space if sum(1 for a, b in zip(c, d) if a != b) == 2]
    return [c] + some


def cases(tier):
    T = tier == "thorough"
    out = []
    for phys, table in (("fermion", FERMION), ("spin", SPIN), ("ar", AR)):
        for name, spaces in table:
            spaces = list(spaces)
            if T and "elec" not in name and "one" not in name:
                spaces += [s for s in MORE[phys] if "restricted" not in name.split("/") or s[1][0] == s[1][1]]
                if "restricted" in name.split("/"):
                    spaces += [(4, (2, 2)), (4, (1, 1))]
            for L, s in spaces:
                out.append(("%s/%s/L%d/%s" % (phys, name, L, s), dict(phys=phys, name=name, L=L, s=s, T=T)))
    # larger systems: every update between two configurations out of one and everything one move away from it
    for phys, name, L, s in BIG:
        out.append(("%s/%s/L%d/%s/around one" % (phys, name, L, s), dict(phys=phys, name=name, L=L, s=s, T=T, around=True)))
    return list(dict(out).items())


def lists(c, d, T):
    """update lists which turn c into d: (length, [(site, new occupancy)])"""
    L = len(c)
    ch = [i for i in range(L) if c[i] != d[i]]
    same = [i for i in range(L) if c[i] == d[i]]
    new = [(i, d[i]) for i in ch]
    base = [new, new[::-1]]
    if T and len(ch) == 3:
        base += [[new[k] for k in q] for q in itertools.permutations(range(3))]
    out = []
    for b in base:
        if len(b) in (2, 3, 4):
            out.append(b)
        if len(b) < 4:
            # an unchanged site in front and behind; the first changed site once more with its old occupancy
            if same:
                k = same[(sum(map(int, map(abs, c))) + len(out)) % len(same)]
                out.append([(k, c[k])] + b)
                out.append(b + [(k, c[k])] * (4 - len(b)))
            if b:
                out.append(b + [(b[0][0], c[b[0][0]])])
                out.append([b[0]] + [(b[0][0], c[b[0][0]])] * (4 - len(b)) + b[1:])
    if not ch:
        out += [[(0, c[0])] * 2, [(0, c[0]), (L - 1, c[L - 1])], [(k % L, c[k % L]) for k in range(4)]]
    return [b for b in out if 1 <= len(b) <= 4]


def run(p, ctx):
    from mc import zoo

    L = p["L"]
    s = tuple(p["s"]) if isinstance(p["s"], list) else p["s"]
    e = {"fermion": zoo.fermion_entry, "spin": zoo.spin_entry, "ar": zoo.ar_entry}[p["phys"]](p["name"], L, s)
    m = e.model
    ctx.require(bool(m.apply_fast_update), "the model offers fast updates", model=e.name)
    v = e.variables(0)
    space = around(e.space) if p.get("around") else e.space
    index = {c: k for k, c in enumerate(space)}
    x = e.inputs(space)
    dt = np.asarray(x).dtype
    full = np.exp(np.asarray(jax.jit(lambda z: m.apply(v, z))(x), dtype=complex))
    keep = lambda c: {**v, **c}
    start = jax.jit(lambda z: m.apply(v, z, mutable="intermediates_cache", cache_intermediates=True))
    peek = jax.jit(lambda c, occ, us: m.apply(keep(c), occ, update_sites=us))
    step = jax.jit(lambda c, occ, us: m.apply(keep(c), occ, update_sites=us, mutable="intermediates_cache", cache_intermediates=True))
    tol = dict(rtol=1e-6, atol=1e-9)

    # ---- all single updates
    moves = {}
    near = lambda a, b: sum(1 for i in range(L) if a[i] != b[i]) <= 4
    for c in space:
        for d in space:
            if near(c, d):
                for b in lists(c, d, p["T"]):
                    moves.setdefault(len(b), []).append((c, d, b))
    if not p["T"] and ("sym" in e.name or L != 3):  # lists of three sites only for the plain models
        moves.pop(3, None)
    for n, ms in moves.items():
        x0 = e.inputs([c for c, _, _ in ms])
        us = jnp.asarray(np.array([[k for k, _ in b] for _, _, b in ms]), jnp.int32)
        occ = jnp.asarray(np.array([[o for _, o in b] for _, _, b in ms]), dt)
        out, cache = start(x0)
        ctx.log_close(np.asarray(out), full[[index[c] for c, _, _ in ms]], "evaluation which fills the cache", model=e.name)
        want = full[[index[d] for _, d, _ in ms]]
        got = np.asarray(peek(cache, occ, us))
        note = lambda k: dict(model=e.name, frm=ms[k][0], to=ms[k][1], update=ms[k][2])
        compare(ctx, got, want, "amplitude of a fast update", note, tol)
        got, cache2 = step(cache, occ, us)
        compare(ctx, np.asarray(got), want, "amplitude of a fast update which keeps its cache", note, tol)
        ctx.trans(2 * len(ms))
        for c, d, b in ms:
            ctx.state((e.name, c, d))
        ctx.trace(len(ms))
        ctx.outcome(np.round(want, 8).tobytes())
        # the cache is that of the new configuration: undo the update from it
        back = jnp.asarray(np.array([[c[k] for k, _ in b] for c, _, b in ms]), dt)
        first = np.array([[k not in [q for q, _ in b[:j]] for j, (k, _) in enumerate(b)] for _, _, b in ms])
        cur = np.array([[d[k] for k, _ in b] for _, d, b in ms])
        back = jnp.asarray(np.where(first, np.asarray(back), cur), dt)
        got = np.asarray(peek(cache2, back, us))
        compare(ctx, got, full[[index[c] for c, _, _ in ms]], "amplitude after an update is undone", note, tol)
        ctx.trans(len(ms))
    # one configuration at a time, as the Hamiltonians evaluate them
    n, ms = min(moves.items(), key=lambda w: abs(w[0] - 2))
    one = jax.jit(lambda z, occ, us: m.apply(keep(m.apply(v, z[None], mutable="intermediates_cache", cache_intermediates=True)[1]), occ[None], update_sites=us[None]))
    vm = jax.jit(jax.vmap(lambda z, occ, us: jnp.squeeze(one(z, occ, us))))
    x0 = e.inputs([c for c, _, _ in ms])
    us = jnp.asarray(np.array([[k for k, _ in b] for _, _, b in ms]), jnp.int32)
    occ = jnp.asarray(np.array([[o for _, o in b] for _, _, b in ms]), dt)
    compare(ctx, np.asarray(vm(x0, occ, us)), full[[index[d] for _, d, _ in ms]], "fast update under vmap", lambda k: dict(model=e.name, frm=ms[k][0], update=ms[k][2]), tol)

    # ---- histories
    depth = 4 if p["T"] and len(space) <= 4 else 3 if len(space) <= 9 or (p["T"] and len(space) <= 16) else 2
    paths = list(itertools.product(range(len(space)), repeat=depth + 1))
    cap = 100000 if p["T"] else 6600
    if len(paths) > cap:  # all continuations of the first few configurations
        paths = [q for q in paths if q[0] < max(2, cap // len(space) ** depth)]
    paths = np.array([q for q in paths if all(near(space[a], space[b]) for a, b in zip(q[:-1], q[1:]))])
    C = np.array(space)
    # a list of four sites per update: the changed ones, then unchanged or repeated ones
    table = {}
    for a, c in enumerate(space):
        for b, d in enumerate(space):
            if not near(c, d):
                continue
            new = [(i, d[i]) for i in range(L) if c[i] != d[i]]
            k = (a + b) % L
            if len(new) == 4:
                pass
            elif (a * len(space) + b) % 2 and new:
                new = new + [(new[-1][0], c[new[-1][0]])] * (4 - len(new))
            else:
                pad = [(i, c[i]) for i in range(L) if c[i] == d[i]] or [(i, c[i]) for i, _ in new]
                new = new + [pad[(k + t) % len(pad)] for t in range(4 - len(new))]
            table[a, b] = new
    S = np.zeros((len(space), len(space), 4), int)
    O = np.zeros((len(space), len(space), 4))
    for (a, b), w in table.items():
        S[a, b] = [i for i, _ in w]
        O[a, b] = [o for _, o in w]
    for lo in range(0, len(paths), 20000):
        q = paths[lo:lo + 20000]
        out, cache = start(jnp.asarray(C[q[:, 0]], dt))
        for t in range(1, depth + 1):
            us = jnp.asarray(S[q[:, t - 1], q[:, t]], jnp.int32)
            occ = jnp.asarray(O[q[:, t - 1], q[:, t]], dt)
            out, cache = step(cache, occ, us)
            compare(ctx, np.asarray(out), full[q[:, t]], "amplitude along a history of updates",
                    lambda k: dict(model=e.name, history=[space[i] for i in q[k, :t + 1]]), dict(rtol=1e-5, atol=1e-8))
            ctx.trans(len(q))
        ctx.trace(len(q))
    ctx.sample(model=e.name, configurations=len(space), histories=len(paths), depth=depth)


def compare(ctx, got, want, what, note, tol):
    got = np.exp(np.asarray(got, dtype=complex).reshape(-1))
    ctx.require(got.shape == want.shape, what + ": shape", got=got.shape)
    bad = ~(np.abs(got - want) <= tol["atol"] + tol["rtol"] * np.abs(want))
    k = int(np.argmax(bad))
    ctx.require(not bad.any(), what, n_bad=int(bad.sum()), got=complex(got[k]), expected=complex(want[k]), **(note(k) if bad.any() else {}))
