"""C17: causal convolutions see only what comes before, PixelCNN states are normalised products of causal conditionals."""
import itertools

import numpy as np

from mc import ref
from mc.heavy import *

RULE = ("a state is a configuration (PixelCNN) or a perturbed input pixel (convolutions); a transition is one prefix class or one pair of output and input pixel compared; a trace is "
        "one evaluation of the real network on the whole space")
BOUNDS = dict(
    quick="PixelCNN on 1, 4 and 9 sites, all configurations, kernel sizes 1-5, depths 0-3, real and complex parameters, exponents 1-3, with and without normalisation and gauge constraint; "
          "vertical, horizontal and causal convolutions with kernel sizes 1-5 and dilations 1-2 on 4x4 to 5x5 images, every pair of pixels",
    thorough="as quick, with kernel sizes up to 7 and spin one",
)
ASSUMPTIONS = ["parameters are fixed generic numbers; dependence of the network on an input is detected by non-zero differences for those"]


def cases(tier):
    T = tier == "thorough"
    out = []
    ks = range(1, 8 if T else 6)
    for cls in ("vertical", "horizontal"):
        for k in ks:
            for dil in (1, 2):
                for center in (False, True):
                    out.append(("%s/k%d/d%d/center%d" % (cls, k, dil, center), dict(kind="conv", cls=cls, k=k, dil=dil, center=center, L=5)))
    for k in ks:
        for act in ("relu", "tanh"):
            out.append(("causal/k%d/%s" % (k, act), dict(kind="causal", k=k, act=act, L=4)))
    for k in ks:
        for depth in (0, 1, 2, 3):
            for dt in ("real", "complex"):
                out.append(("pixelcnn/2x2/k%d/depth%d/%s" % (k, depth, dt), dict(kind="px", L=2, k=k, depth=depth, dt=dt)))
    for k in (2, 3, 5):
        out.append(("pixelcnn/3x3/k%d" % k, dict(kind="px", L=3, k=k, depth=2, dt="complex")))
        out.append(("pixelcnn/1x1/k%d" % k, dict(kind="px", L=1, k=k, depth=1, dt="complex")))
    for pw in (1, 2, 3):
        for norm in (True, False):
            out.append(("pixelcnn/power%d/normalise%d" % (pw, norm), dict(kind="px", L=2, k=3, depth=1, dt="complex", pw=pw, norm=norm)))
    for dt in ("real", "complex"):
        for L in (2, 3):
            out.append(("pixelcnn/gauge/%dx%d/%s" % (L, L, dt), dict(kind="px", L=L, k=3, depth=1, dt=dt, gauge=True)))
            out.append(("pixelcnn/sector/%dx%d/%s" % (L, L, dt), dict(kind="px", L=L, k=3, depth=1, dt=dt, gauge=True, sector=True)))
    out.append(("pixelcnn/spin one", dict(kind="px", L=2, k=3, depth=1, dt="complex", spin=1)))
    out.append(("pixelcnn/not square", dict(kind="reject")))
    return out


def window(cls, k, dil, center, L):
    """input pixels an output pixel may see: offsets of the kernel under SAME padding which come before"""
    lo = ((k - 1) * dil) // 2
    off = [i * dil - lo for i in range(k)]
    out = {}
    for r in range(L):
        for c in range(L):
            seen = set()
            if cls == "vertical":
                for a, b in itertools.product(off, off):
                    if (a < 0 or (a == 0 and not center)) and 0 <= r + a < L and 0 <= c + b < L:
                        seen.add((r + a, c + b))
            else:
                for b in off:
                    if (b < 0 or (b == 0 and not center)) and 0 <= c + b < L:
                        seen.add((r, c + b))
            out[(r, c)] = seen
    return out


def run(p, ctx):
    from mc.core import fill, generic
    from GPSKet.nn import VerticalStackConv, HorizontalStackConv, CausalConv2d

    if p["kind"] == "conv":
        L, F = p["L"], 2
        cls = VerticalStackConv if p["cls"] == "vertical" else HorizontalStackConv
        m = cls(F, p["k"], mask_center=p["center"], dilation=p["dil"], param_dtype=jnp.float64)
        x = jnp.asarray(generic((1, L, L, 2), 3, "real"))
        v = fill(m.init(jax.random.PRNGKey(0), x), 1)
        y = np.asarray(m.apply(v, x))
        ctx.require(y.shape == (1, L, L, F), "shape of the output", got=y.shape)
        want = window(p["cls"], p["k"], p["dil"], p["center"], L)
        # a kernel of even size with even dilation has no centre: there only what may be seen at most is fixed
        must = p["k"] % 2 == 1 or p["dil"] == 1
        J = np.asarray(jax.jacfwd(lambda z: m.apply(v, z))(x))[0, :, :, :, 0]
        for r, c in itertools.product(range(L), range(L)):
            for ch in range(2):
                d = np.abs(J[r, c, :, :, :, ch]).max(axis=0)
                got = {(int(a), int(b)) for a, b in np.argwhere(d > 1e-12)}
                note = dict(kernel=p["k"], dilation=p["dil"], centre_masked=p["center"], pixel=(r, c))
                ctx.require(got <= want[(r, c)], "a convolution sees a pixel that does not come before", got=sorted(got - want[(r, c)]), **note)
                ctx.require(not must or got == want[(r, c)], "a convolution misses a pixel of its window", missing=sorted(want[(r, c)] - got), **note)
                ctx.trans(L * L)
            ctx.state((r, c))
        ctx.trace()
        ctx.outcome(tuple(sorted((k, tuple(sorted(s))) for k, s in want.items())))
        ctx.sample(**{k: p[k] for k in ("cls", "k", "dil", "center")})
        return
    if p["kind"] == "causal":
        L, F = p["L"], 3
        act = dict(relu=jax.nn.relu, tanh=jnp.tanh)[p["act"]]
        m = CausalConv2d(n_channels=F, kernel_size=p["k"], activation=act, param_dtype=jnp.float64)
        vx, hx = jnp.asarray(generic((1, L, L, F), 5, "real")), jnp.asarray(generic((1, L, L, F), 6, "real"))
        v = fill(m.init(jax.random.PRNGKey(0), vx, hx), 2)
        vo, ho = (np.asarray(a) for a in m.apply(v, vx, hx))
        ctx.require(vo.shape == ho.shape == (1, L, L, F), "shape of the output", got=(vo.shape, ho.shape))
        wv, wh = window("vertical", p["k"], 1, False, L), window("horizontal", p["k"], 1, False, L)
        for a, b in itertools.product(range(L), range(L)):
            for which in (0, 1):
                args = [vx, hx]
                args[which] = args[which].at[0, a, b].add(jnp.asarray([0.71, -0.43, 0.97]))
                v2, h2 = (np.asarray(t) for t in m.apply(v, *args))
                dv, dh = np.abs(v2 - vo).max(axis=(0, 3)), np.abs(h2 - ho).max(axis=(0, 3))
                for r, c in itertools.product(range(L), range(L)):
                    note = dict(kernel=p["k"], changed=(a, b), stack=which, pixel=(r, c))
                    if which == 0:
                        ctx.require(dv[r, c] < 1e-12 or (a, b) in wv[(r, c)], "the vertical stack sees later rows", **note)
                        ctx.require(dh[r, c] < 1e-12 or (a, b) in wv[(r, c)], "the horizontal stack sees later rows of the vertical one", **note)
                    else:
                        ctx.require(dv[r, c] < 1e-12, "the vertical stack sees the horizontal one", **note)
                        ctx.require(dh[r, c] < 1e-12 or (a, b) in wh[(r, c)], "the horizontal stack sees later pixels", **note)
                    ctx.trans()
                ctx.trace()
            ctx.state((a, b))
        ctx.sample(kernel=p["k"], activation=p["act"])
        ctx.outcome(np.round(ho, 9).tobytes())
        return
    if p["kind"] == "reject":
        hi = nk.hilbert.Spin(0.5, N=5)
        m = gmod.PixelCNN(hi, depth=1, n_channels=2)
        try:
            m.init(jax.random.PRNGKey(0), jnp.ones((1, 5)))
            raised = False
        except ValueError:
            raised = True
        ctx.require(raised, "a number of sites which is no square is refused")
        ctx.state(5)
        ctx.trans()
        ctx.trace()
        ctx.sample(sites=5)
        return

    L = p["L"]
    N = L * L
    pw, norm = p.get("pw", 2), p.get("norm", True)
    spin = p.get("spin", 0.5)
    vals = (-1, 1) if spin == 0.5 else (-2, 0, 2)
    space = [tuple(c) for c in itertools.product(vals, repeat=N)]
    sz = 0.0 if N % 2 == 0 else 0.5
    hi = nk.hilbert.Spin(spin, N=N, total_sz=sz) if p.get("sector") else nk.hilbert.Spin(spin, N=N)
    kw = {}
    up = (N + 1) // 2  # largest number of spins of each kind

    if p.get("gauge"):
        def gauge(x):  # how often each local state appeared before
            x = jnp.asarray(x)
            one = jnp.stack([x < 0, x > 0], axis=-1).astype(jnp.int32)
            return jnp.cumsum(one, axis=1) - one

        if p.get("sector"):
            lim = jnp.asarray([N - int(round((N + 2 * sz) / 2)), int(round((N + 2 * sz) / 2))])
        else:
            lim = jnp.asarray([up, up])
        kw = dict(gauge_fn=gauge, constraint_fn=lambda g: g >= lim)
    m = gmod.PixelCNN(hi, machine_pow=pw, param_dtype=jnp.float64 if p["dt"] == "real" else jnp.complex128, kernel_size=p["k"], n_channels=2, depth=p["depth"], normalize=norm, **kw)
    X = np.array(space, dtype=float)
    for seed in (0, 1):
        v = fill(m.init(jax.random.PRNGKey(0), jnp.asarray(X[:1])), seed, scale=0.6)
        lp = np.asarray(m.apply(v, jnp.asarray(X)))
        cl = np.asarray(m.apply(v, jnp.asarray(X), method=m.conditionals_log_psi))
        ctx.require(cl.shape == (len(space), N, len(vals)), "shape of the conditionals", got=cl.shape)
        note = dict(model=p, seed=seed)
        amp = np.exp(lp)
        idx = {c: k for k, c in enumerate(space)}
        loc = {s: k for k, s in enumerate(vals)}
        if p.get("gauge"):
            ok = np.array([all(c.count(s) <= int(lim[loc[s]]) for s in vals) for c in space])
            with np.errstate(all="ignore"):
                amp = np.where(np.isneginf(lp.real), 0.0, amp)
            ctx.require(np.all(amp[~ok] == 0), "configurations which break the constraint have no amplitude", **note)
            ctx.require(np.all(np.abs(amp[ok]) > 0), "configurations which obey the constraint have an amplitude", **note)
        if norm:
            ctx.close(np.sum(np.abs(amp) ** pw), 1.0, "normalisation", **note)
        # causality: every conditional depends on the preceding sites only
        for i in range(N):
            groups = {}
            for k, c in enumerate(space):
                groups.setdefault(c[:i], []).append(k)
            for g, ks in groups.items():
                a = cl[ks, i]
                with np.errstate(all="ignore"):
                    a = np.where(np.isneginf(a.real), -1e3, a)
                if p.get("gauge") and np.all(a.real < -900):
                    continue
                if np.any(np.isnan(a)) and p.get("gauge"):
                    continue  # no admissible continuation
                ctx.close(a, np.broadcast_to(a[0], a.shape), "a conditional depends on later sites", site=i, prefix=g, **note)
                if norm:
                    ctx.close(np.sum(np.exp(pw * a[0].real)), 1.0, "normalisation of a conditional", site=i, prefix=g, **note)
                ctx.trans()
        # the amplitude is the product of the conditionals
        prod = np.array([sum(cl[k, i, loc[c[i]]] for i in range(N)) for k, c in enumerate(space)])
        if p.get("gauge"):
            prod, lp = prod[ok], lp[ok]
        ctx.close(np.exp(lp), np.exp(prod), "the amplitude is the product of its conditionals", **note)
        if norm:
            pr = np.asarray(m.apply(v, jnp.asarray(X), method=m.conditionals))
            for i in range(N):
                one = np.asarray(m.apply(v, jnp.asarray(X), i, method=m.conditional))
                sel = slice(None) if not p.get("gauge") else ok
                ctx.close(one[sel], pr[sel][:, i], "one conditional at a time", site=i, **note)
            with np.errstate(all="ignore"):
                want = np.exp(pw * cl.real)
            sel = slice(None) if not p.get("gauge") else ok
            ctx.close(pr[sel], want[sel], "conditional probabilities", **note)
        # one at a time as in a batch
        k = len(space) // 3 if not p.get("gauge") else int(np.argmax(ok))
        ctx.close(np.asarray(m.apply(v, jnp.asarray(X[k]))).reshape(-1)[0], np.asarray(m.apply(v, jnp.asarray(X)))[k], "single configuration", **note)
        ctx.trace()
        for c in space:
            ctx.state((seed, c))
        # every site and every earlier site matters as far as the network reaches
        if p["k"] >= 3 and p["depth"] >= 1 and not p.get("gauge") and L == 2:
            ctx.require(len({np.round(a, 9) for a in np.abs(amp)}) > len(space) // 2, "the amplitude depends on the configuration", **note)
    ctx.sample(model={k: p[k] for k in ("L", "k", "depth", "dt")})
