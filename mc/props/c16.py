"""C16: supervised learning of GPS states: cached features, Bayesian regression and evidence through every history of operations."""
import itertools

import numpy as np

from mc.core import generic

RULE = ("a state is a history of operations on a learner, after which its parameters and predictions were compared with a reference that recomputes everything from scratch; a "
        "transition is one operation on the real learner; a trace is one complete history")
BOUNDS = dict(
    quick="every sequence of three operations out of nine (fits at different reference sites and data sets, predictions, new parameters, arrays changed in place by the caller) for each "
          "class of learner and option set; sequences of two for three other numbers of sites, local states and support dimensions; evidence and its derivatives on a grid of hyperparameters; every single-feature change in each step of the growing relevance vector machine",
    thorough="as quick with sequences of four operations",
)
ASSUMPTIONS = ["targets have non-zero amplitudes", "single process", "weightings are not used together with the evidence", "bias and complex_expand are not combined with per-feature precisions"]

SHAPE = (3, 2, 2)
L, D, M = SHAPE  # sites, local states, support dimension


def cases(tier):
    T = tier == "thorough"
    out = []
    for cls in ("exp", "log", "glm"):
        for kind in ("real", "complex", "expand"):
            if cls == "glm" and kind == "complex":
                continue  # always expanded
            base = dict(kind="history", cls=cls, dt=kind, T=T)
            opts = [dict(), dict(sym=True), dict(bias=True), dict(weights=True), dict(prior=0.4), dict(sym=True, bias=True, weights=True, prior=-0.3)]
            if cls == "exp":
                opts += [dict(noise=0.0), dict(iterative=True), dict(reweight=True)]
            opts += [dict(zero=True)]
            for o in opts:
                if cls == "glm" and o.get("bias") and kind == "expand":
                    pass
                out.append(("history/%s/%s/%s" % (cls, kind, "+".join(sorted(o)) or "plain"), dict(base, o=o)))
    for cls in ("exp", "log"):
        for kind in ("real", "complex", "expand"):
            for bias in (False, True):
                out.append(("evidence/%s/%s/%s" % (cls, kind, "bias" if bias else "plain"), dict(kind="evidence", cls=cls, dt=kind, bias=bias)))
            out.append(("optimise/%s/%s" % (cls, kind), dict(kind="optimise", cls=cls, dt=kind)))
            out.append(("features/%s/%s" % (cls, kind), dict(kind="features", cls=cls, dt=kind)))
    for kind in ("real", "complex", "expand"):
        for prior in (0.0, 0.3):
            for ref in (0, 1, 2, (0, 1)):
                out.append(("growing/%s/prior%s/%s" % (kind, prior, ref), dict(kind="growing", dt=kind, prior=prior, ref=ref, T=T)))
    # other numbers of sites, local states and support dimensions
    for shape in ((4, 4, 3), (5, 2, 1), (2, 3, 4)):
        for kind in ("real", "complex", "expand"):
            for cls in ("exp", "log", "glm"):
                for o in (dict(), dict(sym=True, bias=True, weights=True, prior=-0.3)):
                    if cls != "glm" or kind != "complex":
                        out.append(("history/%dx%dx%d/%s/%s/%s" % (*shape, cls, kind, "+".join(sorted(o)) or "plain"), dict(kind="history", cls=cls, dt=kind, T=False, o=o, depth=2, shape=shape)))
                if cls != "glm" and shape != (4, 4, 3):
                    out.append(("evidence/%dx%dx%d/%s/%s" % (*shape, cls, kind), dict(kind="evidence", cls=cls, dt=kind, bias=False, shape=shape)))
                    out.append(("optimise/%dx%dx%d/%s/%s" % (*shape, cls, kind), dict(kind="optimise", cls=cls, dt=kind, shape=shape)))
            if shape != (4, 4, 3):
                out.append(("growing/%dx%dx%d/%s" % (*shape, kind), dict(kind="growing", dt=kind, prior=0.3, ref=1, T=False, shape=shape)))
    return out


# ---- reference
def as3(confs):
    return confs[:, :, None] if confs.ndim == 2 else confs


def sites(ref):
    return np.full(M, ref) if np.ndim(ref) == 0 else np.asarray(ref)


def features(eps, ref, confs):
    c, r = as3(confs), sites(ref)
    K = np.zeros((len(c), M * D), dtype=eps.dtype)
    for i in range(len(c)):
        for w in range(M):
            for k in range(c.shape[2]):
                pr = 1.0
                for j in range(L):
                    if j != r[w]:
                        pr = pr * eps[c[i, j, k], w, j]
                K[i, w * D + c[i, r[w], k]] += pr
    return K


def log_amp(eps, bias, confs):
    c = as3(confs)
    out = np.zeros(len(c), dtype=eps.dtype)
    for i in range(len(c)):
        for w in range(M):
            for k in range(c.shape[2]):
                pr = 1.0
                for j in range(L):
                    pr = pr * eps[c[i, j, k], w, j]
                out[i] += pr
    return out + bias


class Model:
    """everything recomputed from the definition"""

    def __init__(self, p, eps):
        o = p.get("o", {})
        self.o, self.cls, self.expand = o, p["cls"], p["dt"] == "expand" or (p["cls"] == "glm" and p["dt"] != "real")
        self.eps = eps.copy()
        self.bias = np.zeros(1, dtype=eps.dtype)
        self.has_bias = bool(o.get("bias"))
        self.noise = o.get("noise", 0.1)
        self.alpha = 0.8
        self.prior = o.get("prior", 0.0)

    def predict(self, confs):
        a = log_amp(self.eps, self.bias if self.has_bias else 0.0, confs)
        return a if self.cls == "log" else np.exp(a)

    def design(self, confs, ref):
        K = features(self.eps, ref, confs)
        mean = self.prior * K.sum(axis=1)
        if self.has_bias:
            K = np.concatenate([K, np.ones((len(K), 1))], axis=1)
        return K, mean

    def data(self, target, mean):
        if self.cls == "log":
            return target - mean
        a = target.astype(self.eps.dtype)
        return (np.log(np.abs(a)) if self.eps.dtype == float else np.log(a)) - mean

    def precision(self, target, confs, weightings):
        if self.cls == "log":
            S = np.full(len(target), 1 / self.noise)
        elif self.noise == 0:
            S = np.ones(len(target))
        elif self.o.get("iterative"):
            S = 1 / np.log((1 + np.sqrt(1 + 4 * self.noise / np.abs(self.predict(confs)) ** 2)) / 2)
        else:
            q = np.abs(target) ** 2
            if self.o.get("reweight"):
                q = q / REWEIGHT[:len(q)]
            S = 1 / np.log(1 + self.noise / q)
        return S if weightings is None else S * weightings

    def old(self, ref):
        r = sites(ref)
        w = np.concatenate([self.eps[:, m, r[m]] for m in range(M)]) - self.prior
        return np.concatenate([w, self.bias]) if self.has_bias else w

    def put(self, w, ref):
        r = sites(ref)
        for m in range(M):
            self.eps[:, m, r[m]] = w[m * D:(m + 1) * D] + self.prior
        if self.has_bias:
            self.bias = np.array([w[-1]], dtype=self.bias.dtype)

    def expanded(self, K):
        return np.concatenate([np.concatenate([K.real, -K.imag], axis=1), np.concatenate([K.imag, K.real], axis=1)], axis=0)

    def posterior(self, K, S, d, alpha):
        """posterior mean (complex vector) of the weights; alpha per feature (expanded: per real component)"""
        if self.expand:
            R, dd, SS = self.expanded(K), np.concatenate([d.real, d.imag]), np.concatenate([2 * S, 2 * S])
        else:
            R, dd, SS = K, d, S
        A = R.conj().T @ (SS[:, None] * R)
        valid = np.abs(np.diag(A)) > 1e-9
        act = valid & (alpha < 1e10)
        w = np.zeros(R.shape[1], dtype=R.dtype)
        G = A[np.ix_(act, act)] + np.diag(alpha[act])
        w[act] = np.linalg.solve(G, (R.conj().T @ (SS * dd))[act])
        return w, valid, R, SS, dd

    def evidence(self, K, S, d, alpha):
        _, valid, R, SS, dd = self.posterior(K, S, d, alpha)
        act = valid & (alpha < 1e10)
        C = np.diag(1 / SS) + (R[:, act] / alpha[act]) @ R[:, act].conj().T
        if self.expand or self.eps.dtype == float:
            return 0.5 * (-np.linalg.slogdet(2 * np.pi * C)[1] - dd @ np.linalg.solve(C, dd))
        return (-np.linalg.slogdet(np.pi * C)[1] - (dd.conj() @ np.linalg.solve(C, dd)).real)

    def join(self, w):
        return w[:len(w) // 2] + 1j * w[len(w) // 2:] if self.expand else w

    def split(self, w):
        return np.concatenate([w.real, w.imag]) if self.expand else w

    def n_alpha(self):
        return (M * D + self.has_bias) * (2 if self.expand else 1)

    def fit(self, confs, target, ref, weightings):
        K, mean = self.design(confs, ref)
        al = np.full(self.n_alpha(), self.alpha)
        if self.cls == "glm":
            self.put(self.join(self.newton(K, mean, target, ref, weightings, al)), ref)
            return
        d = self.data(target, mean)
        S = self.precision(target, confs, weightings)
        w, valid, *_ = self.posterior(K, S, d, al)
        self.put(self.join(np.where(valid, w, self.split(self.old(ref)))), ref)

    def newton(self, K, mean, target, ref, weightings, al):
        """one Newton step for 1/2 [beta sum_i w_i |target_i - exp(mean_i + (K w)_i)|^2 + alpha |w|^2] from the present weights"""
        beta = 1 / self.noise
        wt = np.ones(len(K)) if weightings is None else weightings
        x = self.split(self.old(ref))
        R = np.concatenate([K, 1j * K], axis=1) if self.expand else K
        pred = np.exp(mean + R @ x)
        r = target.astype(self.eps.dtype) - pred
        G = pred[:, None] * R
        a = al / 2 if self.expand else al
        g = -beta * np.real((wt * r.conj()) @ G) + a * x
        H = beta * np.real((G.conj().T * wt) @ G - (R.T * (wt * r.conj() * pred)) @ R) + np.diag(a)
        act = np.sum(np.abs(R), axis=0) > 1e-9
        out = x.copy()
        ev = np.linalg.eigvalsh(H[np.ix_(act, act)])
        self.unsure = abs(ev.min()) < 1e-6 * abs(ev).max()
        if ev.min() > 0:
            out[act] -= np.linalg.solve(H[np.ix_(act, act)], g[act])
        return out


REWEIGHT = generic((40,), 77, "positive")


def learner(p, eps, **kw):
    from GPSKet.supervised import supervised_qgps as s

    o = p.get("o", {})
    kw = dict(dict(init_alpha=0.8, init_noise_tilde=o.get("noise", 0.1), include_bias=bool(o.get("bias"))), **kw)
    if p["cls"] == "glm":
        return s.QGPSGenLinMod(eps.copy(), **kw)
    kw["complex_expand"] = p["dt"] == "expand"
    if p["cls"] == "log":
        return s.QGPSLogSpaceFit(eps.copy(), **kw)
    if o.get("iterative"):
        kw["iterative_noise_est"] = True
    l = s.QGPSLearningExp(eps.copy(), **kw)
    if o.get("reweight"):
        l.noise_reweighting = REWEIGHT[:8].copy()
    return l


def eps_of(dt, seed):
    e = generic((D, M, L), seed, "real" if dt == "real" else "complex")
    return e if dt == "real" else e.astype(complex)


def sets(sym):
    allc = np.array(list(itertools.product(range(D), repeat=L)), dtype=int)
    if (L, D, M) == SHAPE:
        some, few = allc[[0, 1, 4, 5, 5]], allc[[0, 2, 3, 6, 7]]  # the middle site is always empty in some
    else:
        if len(allc) > 20:
            allc = allc[(np.arange(20) * 37) % len(allc)]
        some = allc[allc[:, 1] == 0][:6]
        some, few = np.concatenate([some, some[-1:]]), allc[1::3]
    if sym:
        f = lambda c: np.stack([c, np.roll(c, 1, axis=1), D - 1 - c], axis=-1)
        return f(allc), f(few)
    return allc, some


def targets(p, n, seed):
    if p["cls"] == "log":
        return generic((n,), seed, "real" if p["dt"] == "real" else "complex")
    return generic((n,), seed, "positive" if p["dt"] == "real" else "complex") * 1.1


OPS = ["fit A 0", "fit A 1", "fit A 2", "fit A (0,2)", "fit B 1", "predict A", "predict B", "set", "change A"]


def run(p, ctx):
    global L, D, M
    L, D, M = p.get("shape") or SHAPE
    if p["kind"] == "history":
        return history(p, ctx)
    if p["kind"] == "growing":
        return growing(p, ctx)
    if p["kind"] == "features":
        return precomputed(p, ctx)
    return hyper(p, ctx)


def history(p, ctx):
    o = p["o"]
    e0, e1 = eps_of(p["dt"], 1), eps_of(p["dt"], 2)
    if o.get("zero"):
        e0[0, 0, 1] = 0.0
        e0[1, 1, 2] = 0.0
    A0, B = sets(o.get("sym"))
    tA, tB = targets(p, len(A0), 5), targets(p, len(B), 6)
    wt = {"A": generic((len(A0),), 8, "positive"), "B": generic((len(B),), 9, "positive")} if o.get("weights") else {}
    kw = dict(opt_alpha=False)
    kw["opt_beta" if p["cls"] == "glm" else "opt_noise"] = False
    depth = p.get("depth") or (4 if p["T"] else 3)
    ops = [op for op in OPS if not op.endswith("2") or L > 2]
    hist = list(itertools.product(ops, repeat=depth))
    if not p["T"]:
        hist = [h for h in hist if h[0].startswith(("fit", "predict")) and not h[-1].startswith("set")]
    for h in hist:
        m, l = Model(p, e0), learner(p, e0)
        A = A0.copy()
        conf = {"A": A, "B": B.copy()}
        tgt = {"A": tA, "B": tB}
        fresh = 0
        note = dict(learner=p["cls"], parameters=p["dt"], options=o, history=h)
        for op in h:
            what = op.split(" ")
            if what[0] == "fit":
                ref = tuple(s % L for s in (0, 2, 1, 1)[:M]) if what[2] == "(0,2)" else int(what[2])
                w = wt.get(what[1])
                if o.get("reweight"):
                    l.noise_reweighting = REWEIGHT[:len(tgt[what[1]])].copy()
                l.fit_step(conf[what[1]], tgt[what[1]].copy(), np.array(ref) if isinstance(ref, tuple) else ref, weightings=None if w is None else w.copy(), prior_mean=m.prior, **kw)
                m.fit(conf[what[1]], tgt[what[1]], ref, w)
                if getattr(m, "unsure", False) or np.max(np.abs(m.eps)) > 1e3 or np.max(np.abs(m.predict(conf["A"]))) > 1e8:
                    break  # an ill-conditioned Newton step
                ctx.close(l.epsilon, m.eps, "parameters after a fit", rtol=1e-6, atol=1e-7, **note)
                if m.has_bias:
                    ctx.close(l.bias, m.bias, "bias after a fit", rtol=1e-6, atol=1e-7, **note)
            elif what[0] == "predict":
                got = l.predict(conf[what[1]])
                ctx.close(got, m.predict(conf[what[1]]), "prediction", rtol=1e-6, atol=1e-7, **note)
            elif what[0] == "set":
                fresh += 1
                e = e1 if fresh == 1 else e0
                l.epsilon = e.copy()
                m.eps = e.copy()
            else:  # the caller reuses its array for other configurations
                A[:] = np.roll(A, 3, axis=0)
            ctx.trans()
        else:
            for s in ("B", "A"):
                ctx.close(l.predict(conf[s]), m.predict(conf[s]), "final prediction", rtol=1e-6, atol=1e-7, **note)
            ctx.close(l.squared_error(conf["A"], tA), np.sum(np.abs(m.predict(conf["A"]) - tA) ** 2), "squared error", rtol=1e-6, atol=1e-7, **note)
            if p["cls"] != "log":
                ctx.close(l.squared_error_log_space(conf["A"], tA, generic((len(A),), 3, "positive")),
                          np.sum(np.abs(np.log(m.predict(conf["A"])) - np.log(tA)) ** 2 * generic((len(A),), 3, "positive")), "squared error of the logarithm", rtol=1e-6, atol=1e-7, **note)
        ctx.state(h)
        ctx.trace()
    ctx.sample(learner=p["cls"], parameters=p["dt"], options=o, histories=len(hist))


def hyper(p, ctx):
    """evidence and its derivatives / its maximisation"""
    A, B = sets(False)
    p = dict(p, o=dict(bias=p.get("bias", False)))
    tA = targets(p, len(A), 5)
    # every fit from here on: reference site, precisions, noise
    for ref in (0, 1, tuple(s % L for s in (2, 0, 1, 1)[:M])):
        for al in (0.05, 0.8, 7.0):
            for noise in (0.02, 0.1, 0.9):
                m = Model(p, eps_of(p["dt"], 1))
                m.noise, m.alpha = noise, al
                note = dict(learner=p["cls"], parameters=p["dt"], site=ref, alpha=al, noise=noise)
                K, mean = m.design(A, ref)
                d = m.data(tA, mean)
                l = learner(p, m.eps, init_alpha=al, init_noise_tilde=noise)
                rf = np.array(ref) if isinstance(ref, tuple) else ref

                def ev(noise, alpha):
                    keep, m.noise = m.noise, noise
                    r = m.evidence(K, m.precision(tA, A, None), d, alpha)
                    m.noise = keep
                    return r

                a0 = np.full(m.n_alpha(), al)
                if p["kind"] == "evidence":
                    # different precisions for the features
                    if not (p["bias"] and m.expand):
                        a0 = al * (1 + 0.37 * np.arange(m.n_alpha()))
                    l.ref_sites = rf
                    l.alpha_mat_ref_sites = a0.copy()
                    ctx.close(l.alpha_mat_ref_sites, a0, "precisions of the features at the reference sites", **note)
                    if p["cls"] == "log":
                        l.beta = 1 / noise
                    l.setup_fit(A, tA.copy(), rf)
                    ctx.close(l.log_marg_lik(), ev(noise, a0), "log evidence", rtol=1e-6, atol=1e-7, **note)
                    w, *_ = m.posterior(K, m.precision(tA, A, None), d, a0)
                    ctx.close(l.weights, w, "posterior mean", rtol=1e-6, atol=1e-7, **note)
                    der = []
                    for k in range(len(a0)):
                        h = 1e-4 * a0[k]
                        e = np.eye(len(a0))[k] * h
                        der.append((8 * (ev(noise, a0 + e) - ev(noise, a0 - e)) - (ev(noise, a0 + 2 * e) - ev(noise, a0 - 2 * e))) / (12 * h))
                    ctx.close(l.log_marg_lik_alpha_der(), der, "derivative of the evidence with the precisions", rtol=1e-4, atol=1e-6, **note)
                    h = 1e-4 * noise
                    dn = (8 * (ev(noise + h, a0) - ev(noise - h, a0)) - (ev(noise + 2 * h, a0) - ev(noise - 2 * h, a0))) / (12 * h)
                    ctx.close(l.log_marg_lik_noise_der(), dn, "derivative of the evidence with the noise", rtol=1e-4, atol=1e-5, **note)
                    # every site keeps its own precisions
                    for s in list(range(L)) + [ref]:
                        l.ref_sites = np.array(s) if isinstance(s, tuple) else s
                        parts = 2 if m.expand else 1
                        want = np.full(parts * M * D, al)
                        for k in range(len(want)):
                            w = k % (M * D) // D
                            if sites(ref)[w] == sites(s)[w]:
                                want[k] = a0[k]
                        ctx.close(l.alpha_mat_ref_sites[:len(want)], want, "precisions of a site", at=s, **note)
                    ctx.trans(3 + L)
                else:
                    for rvm in (False, True):
                        for opt_noise in (False, True):
                            l = learner(p, m.eps, init_alpha=al, init_noise_tilde=noise)
                            key = "max_alpha_beta_iterations" if p["cls"] == "log" else "max_alpha_iterations"
                            n2 = dict(note, rvm=rvm, opt_noise=opt_noise)
                            l.fit_step(A, tA.copy(), rf, opt_alpha=True, opt_noise=opt_noise, rvm=rvm, **{key: 60 if rvm or opt_noise else 3000})
                            a1 = l.alpha_mat_ref_sites
                            n1 = float(l.noise_tilde)
                            ctx.require(np.all(a1 >= 0) and n1 > 0, "hyperparameters stay positive", precisions=a1, noise_now=n1, **n2)
                            if not rvm:
                                ctx.close(a1, np.full(len(a1), a1[0]), "a single precision for all features", **n2)
                            if not opt_noise:
                                ctx.close(n1, noise, "the noise stays as it is", **n2)
                            if np.all(a1 > 1e-6) and n1 > 1e-8:
                                ctx.require(ev(n1, a1) >= ev(noise, a0) - 1e-6 * (1 + abs(ev(noise, a0))), "maximising the evidence does not lower it",
                                            before=ev(noise, a0), after=ev(n1, a1), precisions=a1, noise_now=n1, **n2)
                                if not rvm and not opt_noise and 1e-3 < a1[0] < 1e3:
                                    h = 1e-3 * a1[0]
                                    one = np.ones(len(a1))
                                    g = (ev(n1, a1 + h * one) - ev(n1, a1 - h * one)) / (2 * h) * a1[0]
                                    ctx.require(abs(g) < 1e-3, "the evidence is stationary", slope=g, precision=a1[0], **n2)
                            ctx.trans()
                ctx.state((ref, al, noise))
                ctx.trace()
    ctx.sample(kind=p["kind"], learner=p["cls"], parameters=p["dt"])


def precomputed(p, ctx):
    """features given by the caller"""
    from GPSKet.supervised import supervised_qgps as s

    p = dict(p, o={})
    m = Model(p, eps_of(p["dt"], 1))
    for n in (3, 5):
        K = generic((8, n), 21, "real" if p["dt"] == "real" else "complex")
        tA = targets(p, 8, 5)
        for al in (0.05, 2.0):
            for noise in (0.02, 0.5):
                for wt in (None, generic((8,), 4, "positive")):
                    m.noise = noise
                    d = m.data(tA, 0.0)
                    S = m.precision(tA, None, wt)
                    w, *_ = m.posterior(K, S, d, np.full(n * (2 if m.expand else 1), al))
                    cls = s.QGPSLogSpaceFit if p["cls"] == "log" else s.QGPSLearningExp
                    l = cls(m.eps.copy(), init_alpha=al, init_noise_tilde=noise, complex_expand=m.expand, K=K.copy())
                    for rep in range(2):
                        l.fit_step(sets(False)[0], tA.copy(), 0, opt_alpha=False, opt_noise=False, weightings=None if wt is None else wt.copy())
                        ctx.close(l.weights, w, "posterior mean for given features", rtol=1e-6, atol=1e-8, n=n, alpha=al, noise=noise, weighted=wt is not None)
                        ctx.trans()
                    ctx.close(l.epsilon, m.eps, "given features leave the parameters alone")
                    ctx.state((n, al, noise, wt is None))
                    ctx.trace()
    ctx.sample(learner=p["cls"], parameters=p["dt"])


def growing(p, ctx):
    """each step of the growing relevance vector machine makes the best change of a single precision"""
    p = dict(p, cls="exp", o=dict(prior=p["prior"]))
    A, _ = sets(False)
    ref = p["ref"]
    rf = np.array(ref) if isinstance(ref, (tuple, list)) else ref
    for seed in range(6 if p["T"] else 3):
        tA = targets(p, len(A), 40 + seed)
        for noise in (0.05, 0.4):
            m = Model(p, eps_of(p["dt"], seed))
            m.noise = noise
            l = learner(p, m.eps, init_alpha=1e12, init_noise_tilde=noise)
            K, mean = m.design(A, ref)
            d = m.data(tA, mean)
            S = m.precision(tA, A, None)
            P = m.n_alpha()
            before = None
            for it in range(7):
                l.fit_step_growing_RVM(A, tA.copy(), rf, 0 if it == 0 else 1, prior_mean=p["prior"])
                a = np.array(l.alpha_mat_ref_sites)
                a = np.where(a < 1e10, a, np.inf)
                note = dict(parameters=p["dt"], site=ref, seed=seed, noise=noise, step=it)
                now = m.evidence(K, S, d, a)
                if before is not None:
                    ctx.require(np.sum(a != before) <= 1, "a step changes one precision", **note)
                    best = [single(m, K, S, d, before, k) for k in range(P)]
                    top = max(b[0] for b in best)
                    last = [k for k in range(P) if np.isfinite(before[k])]
                    if len(last) == 1 and best[last[0]][1] == np.inf and best[last[0]][0] >= top - 1e-9 * (1 + abs(top)):
                        ctx.require(np.array_equal(a, before), "the only feature left stays", **note)
                        top = now
                    ctx.require(now >= top - 1e-6 * (1 + abs(top)), "a step makes the best change of a single precision", evidence=now, best=top, alpha=a, previous=before, **note)
                else:
                    best = [single(m, K, S, d, np.full(P, np.inf), k) for k in range(P)]
                    if any(np.isfinite(b[1]) for b in best):
                        top = max(b[0] for b in best)
                        ctx.require(now >= top - 1e-6 * (1 + abs(top)), "the first feature is the best one", evidence=now, best=top, alpha=a, **note)
                w, valid, *_ = m.posterior(K, S, d, a)
                m2 = Model(p, m.eps)
                m2.put(m.join(np.where(valid, w, m.split(m.old(ref)))), ref)
                ctx.close(l.epsilon, m2.eps, "parameters after a growing step", rtol=1e-6, atol=1e-7, **note)
                before = a
                ctx.trans(P)
                ctx.state((seed, noise, it))
            ctx.trace()
    ctx.sample(parameters=p["dt"], ref=ref)


def single(m, K, S, d, alpha, k):
    """largest evidence over the precision of feature k alone"""
    _, _, R, SS, dd = m.posterior(K, S, d, alpha)
    act = np.isfinite(alpha).copy()
    act[k] = False
    C = np.diag(1 / SS) + (R[:, act] / alpha[act]) @ R[:, act].conj().T
    c = R[:, k]
    s, q = (c.conj() @ np.linalg.solve(C, c)).real, c.conj() @ np.linalg.solve(C, dd)
    best = alpha.copy()
    best[k] = s ** 2 / (abs(q) ** 2 - s) if abs(q) ** 2 > s else np.inf
    return m.evidence(K, S, d, best), best[k]
