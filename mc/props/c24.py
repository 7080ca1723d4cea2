"""C24: initialisers give their documented starting points, however the type of the parameters is spelled."""
import itertools

import numpy as np

from mc.heavy import *

RULE = ("a state is (initialiser or model, type, shape, outcome of the normal draws or key) whose parameters were compared with the documented "
        "form; a transition is one initialisation; a trace is one (initialiser or model, type, shape) with all its draws")
BOUNDS = dict(
    quick="normal: nine spellings of five types, given to the initialiser or to the call, two widths, shapes of up to four elements, every table of three "
          "values per standard normal draw; orthogonal: stacks of one to three matrices of up to 5x5, both axes, two scales, five types, keys 0-7; "
          "default initial parameters of every model for five spellings of its type, keys 0-1",
    thorough="as quick with keys 0-63 for the orthogonal matrices and keys 0-7 for the models",
)
ASSUMPTIONS = ["standard normal numbers come from jax.random.normal; their table is replaced by an enumerated one",
               "phases are drawn in single precision"]

SPELL = {"complex": ("complex128",), "np.complex128": ("complex128",), "np.complex64": ("complex64",), "jnp.complex128": ("complex128",),
         "dtype complex": ("complex128",), "'complex128'": ("complex128",), "float": ("float64",), "np.float64": ("float64",), "jnp.float64": ("float64",),
         "np.float32": ("float32",), "dtype float": ("float64",), "'float64'": ("float64",)}


def spelled(s):
    if s.startswith("'"):
        return s.strip("'")
    if s.startswith("dtype"):
        return np.dtype(complex if "complex" in s else float)
    return {"complex": complex, "float": float}.get(s) or getattr(np if s.startswith("np.") else jnp, s.split(".")[1])


FERMION = ["qGPS", "PlaquetteqGPS/pair", "SegGPS", "Slater/restricted", "Slater/unrestricted/2det", "Slater/general", "SlaterqGPS/unrestricted", "SlaterJastrow/unrestricted",
           "Jastrow", "ASymmqGPS/unrestricted", "ASymmqGPSProd/unrestricted/3det", "CPDBackflow/unrestricted", "CPDBackflow/general", "CPDBackflow/restricted/env",
           "PfaffianState", "ZeroMagnetizationPfaffian"]
SPIN = ["qGPS", "qGPS/auto/flip", "PlaquetteqGPS/pair", "SegGPS"]
AR = ["ARqGPS", "ARqGPSFull", "ARqGPSFull/sites", "ARPlaquetteqGPS", "ARPlaquetteqGPS/window"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for s in SPELL:
        for how in ("constructor", "call"):
            out.append(("normal/%s/%s" % (s, how), dict(kind="normal", s=s, how=how)))
    for d in ("float32", "float64", "complex64", "complex128", "complex"):
        out.append(("orthogonal/%s" % d, dict(kind="orthogonal", d=d, keys=64 if T else 8)))
    for phys, names in (("fermion", FERMION), ("spin", SPIN), ("ar", AR)):
        for n in names:
            out.append(("model/%s/%s" % (phys, n), dict(kind="model", phys=phys, name=n, keys=8 if T else 2)))
    return out


class Draws:
    """jax.random.normal with its standard normal numbers taken from a table, one entry per (key, element)"""

    def __init__(self):
        import jax._src.random as inner

        self.orig = jax.random.normal
        self.places = [(jax.random, "normal"), (inner, "normal")]
        for m in list(__import__("sys").modules.values()):
            if getattr(m, "__name__", "").startswith("GPSKet"):
                for k, v in list(vars(m).items()):
                    if v is self.orig:
                        self.places.append((m, k))

    def __enter__(self):
        for m, k in self.places:
            setattr(m, k, self)
        return self

    def __exit__(self, *a):
        for m, k in self.places:
            setattr(m, k, self.orig)

    def start(self, table):
        self.table, self.slot = table, {}

    def number(self, ident):
        k = self.slot.setdefault(ident, len(self.slot))
        return self.table[k] if k < len(self.table) else 0.0

    def __call__(self, key, shape=(), dtype=float):
        kb = np.asarray(jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key).tobytes()
        n = int(np.prod(shape))
        if jnp.issubdtype(dtype, jnp.complexfloating):
            z = [(self.number((kb, i, 0)) + 1j * self.number((kb, i, 1))) / np.sqrt(2) for i in range(n)]
        else:
            z = [self.number((kb, i, 0)) for i in range(n)]
        return jnp.asarray(np.array(z).reshape(shape), dtype=dtype)


def run_normal(p, ctx):
    from GPSKet.nn import normal

    dt, name = spelled(p["s"]), SPELL[p["s"]][0]
    cplx = name.startswith("complex")
    for sigma in (0.1, 0.7):
        other = jnp.float32 if cplx else jnp.complex64  # must not matter if the call asks for another type
        for shape in ((1,), (3,), (2, 1), (2, 2), ()):
            size = int(np.prod(shape))

            def make(table):
                draws.start(table)
                f = normal(sigma, dt) if p["how"] == "constructor" else normal(sigma=sigma, dtype=other)
                key = jax.random.PRNGKey(3)
                return np.asarray(f(key, shape) if p["how"] == "constructor" else f(key, shape, dt))

            note = dict(type=p["s"], shape=list(shape), sigma=sigma)
            with Draws() as draws:
                w = make([0.0] * size)
                ctx.require(w.dtype == np.dtype(name) and w.shape == tuple(shape), "type and shape of the parameters", dtype=str(w.dtype), **note)
                ctx.close(w, np.ones(shape), "parameters for vanishing draws", **note)
                ctx.require(len(draws.slot) == size, "one independent draw per parameter", draws=len(draws.slot), **note)
                owner = []
                for k in range(size):
                    w = make([float(k == j) for j in range(size)]).reshape(-1)
                    moved = [i for i in range(size) if abs(w[i] - 1) > 1e-6]
                    ctx.require(len(moved) == 1, "every draw determines one parameter", moved=moved, **note)
                    owner.append(moved[0])
                ctx.require(sorted(owner) == list(range(size)), "different draws for different parameters", **note)
                for table in itertools.product((-1.3, 0.0, 0.6), repeat=size):
                    w = make(list(table)).reshape(-1)[owner]
                    z = np.array(table)
                    want = np.exp(1j * sigma * z) if cplx else 1 + sigma * z
                    ctx.close(w, want, "parameters for given draws", rtol=1e-5, atol=1e-6, **note)
                    ctx.state(("normal", p["s"], p["how"], sigma, shape, table))
                    ctx.trans()
            f = normal(sigma, dt)
            a, b, c = (np.asarray(f(jax.random.PRNGKey(k), shape, dt)) for k in (5, 5, 6))
            ctx.require(np.array_equal(a, b), "the same key gives the same parameters", **note)
            ctx.require(size == 0 or not np.array_equal(a, c), "another key gives other parameters", **note)
            ctx.trace()


def run_orthogonal(p, ctx):
    from GPSKet.nn.initializers import orthogonal

    dt = complex if p["d"] == "complex" else getattr(jnp, p["d"])
    tol = 1e-4 if p["d"] in ("float32", "complex64") else 1e-9
    for scale, axis, shape in itertools.product((1.0, 2.5), (-1, -2), ((1, 3, 2), (2, 2, 2), (3, 4, 1), (2, 5, 5), (2, 2, 4), (1, 1, 3))):
        note = dict(type=p["d"], scale=scale, column_axis=axis, shape=list(shape))
        for how in ("constructor", "call"):
            f = orthogonal(scale, axis, dt) if how == "constructor" else orthogonal(scale=scale, column_axis=axis)
            for k in range(p["keys"]):
                key = jax.random.PRNGKey(k)
                W = np.asarray(f(key, shape) if how == "constructor" else f(key, shape, dt))
                ctx.require(W.shape == tuple(shape) and W.dtype == np.dtype(dt), "type and shape of the matrices", dtype=str(W.dtype), **note)
                for w in W:
                    r, c = w.shape
                    g = w.conj().T @ w if r >= c else w @ w.conj().T
                    ctx.close(g, scale ** 2 * np.eye(min(r, c)), "orthonormal columns (rows of a wide matrix)", rtol=tol, atol=tol, key=k, **note)
                if len(W) > 1 and min(shape[1:]) > 0:
                    ctx.require(all(not np.allclose(W[i], W[j], atol=1e-3) for i in range(len(W)) for j in range(i)), "matrices of a stack are drawn independently", key=k, **note)
                ctx.state(("orthogonal", p["d"], scale, axis, shape, how, k))
                ctx.trans()
            ctx.trace()
    for shape in ((3,), (3, 2), (1, 2, 3, 4)):
        try:
            orthogonal(dtype=dt)(jax.random.PRNGKey(0), shape)
            ok = False
        except ValueError:
            ok = True
        ctx.require(ok, "only stacks of matrices are accepted", shape=list(shape))


def run_model(p, ctx):
    from mc import zoo

    L = 4
    sec = {"fermion": (2, 2), "spin": 0, "ar": None}[p["phys"]]
    e = {"fermion": zoo.fermion_entry, "spin": zoo.spin_entry, "ar": zoo.ar_entry}[p["phys"]](p["name"], L, sec)
    x = e.inputs(e.space)
    for real in (False, True):
        words = ("jnp.float64", "float", "np.float64", "dtype float", "'float64'") if real else ("jnp.complex128", "complex", "np.complex128", "dtype complex", "'complex128'")
        for k in range(p["keys"]):
            first = None
            for s in words:
                note = dict(model=p["name"], type=s, key=k)
                m = e.model.clone(dtype=spelled(s))
                v = m.init(jax.random.PRNGKey(k), x)
                par = v["params"]
                leaves = [np.asarray(l) for l in jax.tree_util.tree_leaves(par)]
                y = np.exp(np.asarray(m.apply(v, x), dtype=complex))
                ctx.require(all(np.all(np.isfinite(l)) for l in leaves) and np.all(np.isfinite(y)), "finite initial parameters and amplitudes", **note)
                ctx.require(all(l.dtype == (np.float64 if real else np.complex128) for l in leaves), "parameters have the type of the model",
                            types=[str(l.dtype) for l in leaves], **note)
                if first is None:
                    first = leaves, y
                else:
                    for a, b in zip(leaves, first[0]):
                        ctx.close(a, b, "initial parameters do not depend on how the type is spelled", rtol=1e-12, atol=1e-14, **note)
                    ctx.close(y, first[1], "initial amplitudes do not depend on how the type is spelled", rtol=1e-9, atol=1e-12, **note)
                if not real:
                    for path, l in jax.tree_util.tree_flatten_with_path(par)[0]:
                        if "epsilon" in jax.tree_util.keystr(path) and "GPS" in p["name"]:
                            ctx.close(np.abs(l), np.ones(l.shape), "complex GPS parameters have unit length", rtol=1e-5, atol=1e-5, **note)
                ctx.state(("model", p["phys"], p["name"], s, k))
                ctx.trans()
            ctx.trace()


def run(p, ctx):
    dict(normal=run_normal, orthogonal=run_orthogonal, model=run_model)[p["kind"]](p, ctx)
