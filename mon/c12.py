"""C12: time-step rules: identity, stated random walks, applied once per datum; learned covariances."""
import math
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer import tomography as tm
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one time step (or a sample of time steps) compared with the stated rule; distinct = "
        "(walk configuration: fixed/learned, diagonal/dense, subset, transformation, scale rule, batch-shape class)")
ASSUMPTIONS = ["joint law of the diffusive tomography walk across different experiments of one batch is not judged",
               "a random-walk decorator replaces the underlying model's time step"]


class Box(gen.LabModel):
    pass


def labm(t, d, **kw):
    kw.setdefault('step', False)
    return gen.lab(t.rng, d=d, vary=False, zero=False, **kw)


def sec_identity(t):
    s = gen.any_spec(t.rng, static=True)
    nm, ne = int(t.rng.choice([1, 2, 9])), int(t.rng.choice([1, 2, 4]))
    x = s.mps(t.rng, nm); e = s.eps(t.rng, ne); b = x.copy()
    out = s.model.update_timestep(x, e)
    t.check(np.shape(out) == (nm, x.shape[1], ne), "shape", "%s" % (np.shape(out),))
    t.close(out, np.repeat(x[:, :, None], ne, 2), "identity", rtol=0, atol=0, msg=s.name)
    t.same(x, b, "modified-input")
    t.describe(s.name); t.seen(("identity", s.name.split('(')[0], nm, ne))


class Steps(gen.FnPrior):
    pass


def sec_rw(t):
    d = int(t.rng.randint(1, 5)); nm, ne = int(t.rng.choice([1, 2, 5, 40])), int(t.rng.choice([1, 2, 3]))
    b = labm(t, d); x = b.mps(t.rng, nm); e = b.eps(t.rng, ne)
    dist = Steps(lambda r, n: r.normal(size=(n, d)) + 10.0 ** np.arange(d), d)
    m = qi.RandomWalkModel(b.model, dist)
    if t.rng.rand() < .3: m = qi.MLEModel(m, 2.0)               # passes the walk on
    x0 = x.copy(); out = m.update_timestep(x, e)
    t.check(np.shape(out) == (nm, d, ne), "shape", "%s" % (np.shape(out),))
    t.same(x, x0, "modified-input")
    drawn = np.concatenate(dist.samples)
    t.check(len(drawn) >= nm * ne, "shared-steps", "%d steps drawn for %d models x %d experiments" % (len(drawn), nm, ne))
    inc = (out - x[:, :, None]).transpose(0, 2, 1).reshape(-1, d)
    used = set()
    for row in inc:
        dd = np.abs(drawn - row).max(1); i = int(np.argmin(dd))
        t.check(dd[i] < 1e-9 * 10 ** d, "not-a-step", "increment %s was not drawn from the step distribution" % (row,))
        t.check(i not in used, "reused-step", "step %d used twice" % i); used.add(i)
    t.describe("random walk d=%d models=%d experiments=%d" % (d, nm, ne)); t.seen(("rw", d, nm, ne), nm * ne)


TRANS = {"none": None,
         "square": (lambda x: x ** 2, lambda y: np.sqrt(np.abs(y))),
         "log": (lambda x: np.log(x), lambda y: np.exp(y)),
         "mix": (lambda x: np.column_stack([x[:, ::-1].cumsum(1)]), lambda y: np.diff(np.column_stack([np.zeros(len(y)), y]), axis=1)[:, ::-1])}


def config(t):
    d = int(t.rng.randint(1, 5))
    b = labm(t, d)
    idx = sorted(t.rng.permutation(d)[:t.rng.randint(1, d + 1)].tolist())
    kind = t.rng.randint(4)
    if kind == 0: idx, arg = list(range(d)), 'all'
    elif kind == 1: j = t.rng.randint(d); idx, arg = list(range(j, d)), np.s_[j:d]
    else:
        if t.rng.rand() < .3: idx = idx[::-1]
        arg = idx
    r = len(idx)
    fixed, diag = bool(t.rng.randint(2)), bool(t.rng.randint(2))
    trans = ["none", "none", "square", "log", "mix"][t.rng.randint(5)]
    scale = t.rng.randint(3)
    sm = [None, 'a', lambda e: 0.5 + np.abs(e['a'])][scale]
    sf = [lambda e: np.ones(len(e)), lambda e: e['a'], lambda e: 0.5 + np.abs(e['a'])][scale]
    L = np.tril(t.rng.normal(size=(r, r)) * .4) + np.diag(t.rng.uniform(.3, 1, r)); C = L @ L.T
    if diag: C = np.diag(np.diag(C))
    kw = dict(random_walk_idxs=arg, diagonal=diag)
    if fixed: kw['fixed_covariance'] = np.diag(C).copy() if diag else C.copy()
    if scale: kw['scale_mult'] = sm
    if trans != "none": kw['model_transformation'] = TRANS[trans]
    m = qi.GaussianRandomWalkModel(b.model, **kw)
    nm, ne = int(t.rng.choice([1, 2, 3])), int(t.rng.choice([1, 2, 3]))
    x = t.rng.uniform(.5, 2, (nm, d)); e = b.eps(t.rng, ne)
    covs = [C] * nm
    if not fixed:
        extra = []; covs = []
        for j in range(nm):
            if diag:
                sd = t.rng.uniform(.1, 1.5, r); extra.append(sd); covs.append(np.diag(sd ** 2))
            else:
                l = np.tril(t.rng.normal(size=(r, r))) ; l[np.diag_indices(r)] = t.rng.uniform(.2, 1, r)
                extra.append(l[np.tril_indices(r)]); covs.append(l @ l.T)
        x = np.column_stack([x, np.array(extra)])
    desc = "walk d=%d idx=%s %s %s transformation=%s scale=%d" % (d, arg, "fixed" if fixed else "learned", "diagonal" if diag else "dense", trans, scale)
    key = (fixed, diag, trans, scale, kind, r < d, nm > 1, ne > 1)
    return b, m, x, e, idx, covs, sf(e), trans, desc, key, d


def increments(m, x, e, idx, trans, d, n):
    """n time steps as increments in the transformed space: array (n, models, r, experiments)."""
    reps = np.concatenate([x] * n)
    nm, ne = len(x), len(e)
    new = m.update_timestep(reps, e)
    f = TRANS[trans][0] if trans != "none" else (lambda v: v)
    out = np.empty((n, nm, d, ne))
    for k in range(ne):
        out[..., k] = (f(new[:, :d, k]) - f(reps[:, :d])).reshape(n, nm, d)
    return new, out


def sec_gauss(t):
    b, m, x, e, idx, covs, sc, trans, desc, key, d = config(t)
    t.describe(desc)
    nm, ne, r = len(x), len(e), len(idx)
    x0, e0 = x.copy(), e.copy()
    new = m.update_timestep(x, e)
    t.check(np.shape(new) == (nm, x.shape[1], ne), "shape", "%s" % (np.shape(new),))
    t.same(x, x0, "modified-input"); t.same(e, e0, "modified-input")
    t.close(new[:, d:, :], np.repeat(x[:, d:, None], ne, 2), "covariance-parameters-moved", rtol=0, atol=0, msg=desc)
    rest = [i for i in range(d) if i not in idx]
    f = TRANS[trans][0] if trans != "none" else (lambda v: v)
    for k in range(ne):
        if trans == "none": t.close(new[:, rest, k], x[:, rest], "untouched-moved", rtol=0, atol=0, msg=desc)
        else: t.close(f(new[:, :d, k])[:, rest], f(x[:, :d])[:, rest], "untouched-moved", rtol=1e-9, atol=1e-9, msg=desc)
    # law of the steps: whitened increments are independent standard normals
    Linv = [np.linalg.inv(np.linalg.cholesky(c)) for c in covs]
    def white(n):
        _, inc = increments(m, x, e, idx, trans, d, n)
        if trans == "square":
            return None, inc
        z = np.empty((n, nm, r, ne))
        for j in range(nm):
            for k in range(ne):
                z[:, j, :, k] = (inc[:, j][:, idx, k] @ Linv[j].T) / (sc[k] if abs(sc[k]) > 1e-12 else 1)
        return z, inc
    if np.abs(sc).min() < 1e-3: raise Skip()
    if trans == "square":
        # square root folds negative values; compare moments only where no folding can occur
        y = x[:, :d] ** 2
        def pv(n):
            _, inc = white(n); worst = 1.0
            for j in range(nm):
                for k in range(ne):
                    for q, i in enumerate(idx):
                        s_ = math.sqrt(covs[j][q, q]) * abs(sc[k])
                        v = inc[:, j, i, k] + y[j, i]         # |y + step|
                        worst = min(worst, st.kstest(v, lambda w: np.where(w > 0, st.norm.cdf(w, y[j, i], s_) - st.norm.cdf(-w, y[j, i], s_), 0)).pvalue)
            return min(1, worst * nm * ne * r), desc
        t.stat("step-law", pv, 300)
    else:
        def pv(n):
            z, _ = white(n); ps = []
            flat = z.reshape(n, -1)
            for c in range(flat.shape[1]): ps.append(st.kstest(flat[:, c], 'norm').pvalue)
            return min(1, min(ps) * len(ps)), desc
        t.stat("step-law", pv, 300)
        def ind(n):
            z, _ = white(n); flat = z.reshape(n, -1); k = flat.shape[1]
            if k == 1: return float(st.pearsonr(flat[1:, 0], flat[:-1, 0])[1]), desc
            R = np.corrcoef(flat.T); r_ = np.abs(R[np.triu_indices(k, 1)]).max()
            p = 2 * st.norm.sf(np.arctanh(min(r_, 1 - 1e-15)) * math.sqrt(n - 3)) * k * (k - 1) / 2
            p2 = min(st.pearsonr(flat[1:, c], flat[:-1, c])[1] for c in range(k)) * k
            return min(1.0, 2 * min(p, p2)), desc + ": steps are correlated across components, models or experiments"
        t.stat("step-independence", ind, 300)
    t.seen(("grw",) + key, nm * ne); t.count("step laws tested", nm * ne * r)


def sec_cov(t):
    b, m, x, e, idx, covs, sc, trans, desc, key, d = config(t)
    n = int(t.rng.choice([1, 2, 30]))
    fixed = key[0]
    if not fixed:
        rows = t.rng.randint(0, len(x), n); X = x[rows]
        want = sum(covs[j] for j in rows) / n
    else:
        X = np.repeat(x[:1], n, 0); want = covs[0]
    got = m.est_update_covariance(X)
    t.close(got, want, "update-covariance", rtol=1e-9, atol=1e-12, msg=desc)
    t.check(np.abs(got - got.T).max() < 1e-12 and np.linalg.eigvalsh(got).min() > -1e-12, "psd", desc)
    t.describe(desc); t.seen(("cov",) + key)


class Drift(qi.FiniteOutcomeModel):
    """A two- or three-outcome model whose parameters move deterministically with the experiment."""
    def __init__(self, scalar, d, k):
        self._s, self._d, self._k = scalar, d, k
        super(Drift, self).__init__()
    n_modelparams = property(lambda s: s._d)
    is_n_outcomes_constant = True
    def n_outcomes(self, e): return self._k
    expparams_dtype = property(lambda s: 'float' if s._s else [('a', 'float'), ('b', 'float', 2)])
    def are_models_valid(self, x): return np.all(np.abs(x) < 1e6, axis=1)
    def likelihood(self, o, x, e):
        super(Drift, self).likelihood(o, x, e)
        return np.full((len(o), len(x), len(e)), 1. / self._k)
    def move(self, x, e):
        """the new parameters of one model under one experiment"""
        a, b = (float(e), 0.) if self._s else (float(e['a']), float(e['b'][1]))
        return x + a * np.arange(1, self._d + 1) + b * x[::-1]
    def update_timestep(self, x, e):
        out = np.empty((len(x), self._d, len(e)))
        for i in range(len(x)):
            for j in range(len(e)): out[i, :, j] = self.move(x[i], e[j])
        return out


def sec_decorated(t):
    """A decorated model moves its parameters by the underlying model's rule, given the underlying model's experiments."""
    scalar = bool(t.rng.randint(2)); d = int(t.rng.randint(1, 4)); k = int(t.rng.choice([2, 2, 3]))
    u = Drift(scalar, d, k); m = u; names = []; meas = False; extra = 0
    for _ in range(int(t.rng.randint(1, 4))):
        opts = ["mle", "poisoned"]
        if not meas and not extra: opts += ["multinomial"] * 2 + (["binomial"] * 3 + ["hyper"] * 2 if k == 2 and not names else [])
        kind = opts[t.rng.randint(len(opts))]
        if kind in ("multinomial",) and names: kind = "mle"
        names.append(kind)
        if kind == "mle": m = qi.MLEModel(m, 1.5)
        elif kind == "poisoned": m = qi.PoisonedModel(m, tol=.01)
        elif kind == "multinomial": m = qi.MultinomialModel(m); meas = True
        elif kind == "binomial": m = qi.BinomialModel(m); meas = True
        elif kind == "hyper": m = qi.GaussianHyperparameterizedModel(m); extra = 4
    nm, ne = int(t.rng.choice([1, 2, 5])), int(t.rng.choice([1, 2, 4]))
    x = t.rng.normal(size=(nm, d + extra)); x[:, d:] = np.abs(x[:, d:]) + .1
    if scalar: ue = t.rng.normal(size=ne)
    else:
        ue = np.zeros(ne, dtype=u.expparams_dtype); ue['a'] = t.rng.normal(size=ne); ue['b'] = t.rng.normal(size=(ne, 2))
    e = ue
    if meas:
        e = np.zeros(ne, dtype=m.expparams_dtype); e['n_meas'] = t.rng.randint(1, 9, size=ne)
        if scalar: e['x'] = ue
        else:
            for f in ('a', 'b'): e[f] = ue[f]
    t.describe("%s over a %s drift, d=%d, %d models x %d experiments" % ("-".join(reversed(names)), "scalar" if scalar else "structured", d, nm, ne))
    x0, e0 = x.copy(), e.copy()
    out = m.update_timestep(x, e)
    t.check(np.shape(out) == (nm, d + extra, ne), "shape", "%s" % (np.shape(out),))
    t.same(x, x0, "modified-input"); t.same(e, e0, "modified-input")
    want = np.array([[np.concatenate([u.move(x[i, :d], ue[j]), x[i, d:]]) for j in range(ne)] for i in range(nm)]).transpose(0, 2, 1)
    t.close(out, want, "decorated-step", rtol=1e-12, atol=1e-12, msg="-".join(names))
    # the same rule reaches an inference run
    prior = gen.FnPrior(lambda r, n: np.abs(r.normal(size=(n, d + extra))) + .1, d + extra)
    up = qi.SMCUpdater(m, 7, prior, resample_thresh=0.0, zero_weight_policy="ignore")      # noise may hide every particle
    y = up.particle_locations.copy(); o = m.domain(e)
    dom = o[0] if isinstance(o, (list, tuple)) else o
    up.update(dom.example_point, e[:1])
    want = np.array([np.concatenate([u.move(r[:d], ue[0]), r[d:]]) for r in y])
    t.close(up.particle_locations, want, "decorated-step-in-update", rtol=1e-12, atol=1e-12, msg="-".join(names))
    t.seen(("decorated", tuple(names), scalar, nm > 1, ne > 1), nm * ne)


def sec_diffusive(t):
    s = gen.s_tomo(t.rng, diffusive=True); m = s.model; D = m.dim ** 2
    nm, ne = int(t.rng.choice([1, 3])), int(t.rng.choice([1, 2]))
    # maximally mixed states with small diffusion: canonicalisation leaves the walk alone
    x = np.zeros((nm, D + 1)); x[:, 0] = 1 / math.sqrt(m.dim); x[:, -1] = t.rng.uniform(.001, .004, nm)
    e = s.eps(t.rng, ne); e['t'] = t.rng.uniform(.2, 4, ne)
    if t.rng.rand() < .5:                     # any time scale: what counts is eps * sqrt(t)
        c = 10. ** t.rng.uniform(-6, 8); e['t'] *= c; x[:, -1] /= math.sqrt(c)
    x0 = x.copy(); new = m.update_timestep(x, e)
    t.check(np.shape(new) == (nm, D + 1, ne), "shape", "%s" % (np.shape(new),)); t.same(x, x0, "modified-input")
    t.close(new[:, 0, :], np.repeat(x[:, 0, None], ne, 1), "trace-moved", rtol=1e-9)
    t.close(new[:, -1, :], np.repeat(x[:, -1, None], ne, 1), "diffusion-parameter-moved", rtol=0, atol=0)
    def pv(n):
        w = m.update_timestep(np.concatenate([x] * n), e).reshape(n, nm, D + 1, ne); ps = []
        for j in range(nm):
            for k in range(ne):
                sd = x[j, -1] * math.sqrt(e['t'][k])
                z = (w[:, j, 1:-1, k] - x[j, 1:-1]) / sd
                ps += [st.kstest(z[:, c], 'norm').pvalue for c in range(z.shape[1])]
        return min(1, min(ps) * len(ps)), "%s" % s.name
    t.stat("step-law", pv, 200)
    # a zero-length experiment does not move anything, whatever the others of its batch do
    mixed = s.eps(t.rng, 3); mixed['t'] = np.array([[0, 1., 2.], [1., 0, 2.], [2., 1., 0]][t.rng.randint(3)]); z = int(np.flatnonzero(mixed['t'] == 0)[0])
    y = s.mps(t.rng, nm); out = m.update_timestep(y, mixed)
    t.close(out[:, :, z], m.canonicalize(y.copy()), "zero-time", atol=1e-9)
    t.check(all(np.abs(out[:, 1:D, k] - y[:, 1:D]).max() > 0 for k in range(3) if k != z), "timed-experiment-does-not-move", s.name)
    e['t'] = 0
    y = s.mps(t.rng, nm); out = m.update_timestep(y, e)
    t.close(out, np.repeat(m.canonicalize(y.copy())[:, :, None], ne, 2), "zero-time", atol=1e-9)
    big = s.mps(t.rng, 4); big[:, -1] = 1.5

    B = gen.basis_ops(m.basis)
    e['t'] = 1.0; out = m.update_timestep(big, e)
    for j in range(4):
        for k in range(ne):
            rho = np.einsum('i,iab->ab', out[j, :D, k], B)
            t.check(np.linalg.eigvalsh(rho).min() > -1e-8 and abs(np.trace(rho).real - 1) < 1e-8, "unphysical-after-step", s.name)
    t.describe(s.name); t.seen(("diffusive", m.dim, nm, ne), 4)


def sec_loop(t):
    """In an inference run the time step is applied once per datum, to the experiment of that datum."""
    b = gen.lab(t.rng, vary=False, zero=False, step=bool(t.rng.randint(2)))
    kind = t.rng.randint(3); m = b.model
    if kind == 1: m = qi.RandomWalkModel(b.model, qi.MultivariateNormalDistribution(np.zeros(b.model.n_modelparams), np.eye(b.model.n_modelparams) * .01))
    elif kind == 2: m = qi.GaussianRandomWalkModel(b.model, fixed_covariance=np.full(b.model.n_modelparams, .01), scale_mult=lambda e: 1 + np.abs(e['a']))
    log = []
    orig = m.update_timestep
    def spy(x, e):
        out = orig(x, e); log.append((np.array(x), np.array(e), np.array(out))); return out
    m.update_timestep = spy
    n = int(t.rng.choice([5, 30])); k = int(t.rng.randint(3, 9))
    rs = gen.RecordingResampler() if t.rng.rand() < .5 else qi.LiuWestResampler()
    u = qi.SMCUpdater(m, n, b.prior(), resampler=rs, resample_thresh=float(t.rng.choice([0.0, .5, 1.0])))
    eps = b.eps(t.rng, k); outs = [int(t.rng.choice(b.outs(e))) for e in eps]
    log.clear()
    u.hypothetical_update(np.array(b.outs(eps[0])), eps[:3]); u.bayes_risk(eps[:2]); u.expected_information_gain(eps[:2])
    u.est_mean(); u.sample(3)
    t.check(not log, "time-step-in-query", "a query advanced the model %d times" % len(log))
    batch = t.rng.rand() < .4
    before = u.particle_locations.copy()
    if batch:
        interval = int(t.rng.randint(1, k + 2)); cnt = u.resample_count
        u.batch_update(np.array(outs), eps, resample_interval=interval)
        t.check(len(log) == k, "time-step-count", "%d time steps for a batch of %d data" % (len(log), k))
        for i, (x, e, o) in enumerate(log):
            t.check(len(e) == 1 and e.tobytes() == eps[i:i + 1].tobytes(), "wrong-experiment", "datum %d" % i)
        if u.resample_count == cnt: t.same(u.particle_locations, log[-1][2][:, :, 0], "locations")
    else:
        for i in range(k):
            x0 = u.particle_locations.copy(); c = len(log); chk = bool(t.rng.randint(2))
            u.update(outs[i], eps[i:i + 1], check_for_resample=chk)
            t.check(len(log) == c + 1, "time-step-count", "%d time steps for one datum" % (len(log) - c))
            x, e, o = log[-1]
            t.same(x, x0, "time-step-input"); t.check(e.tobytes() == eps[i:i + 1].tobytes(), "wrong-experiment", "")
            if not u.just_resampled: t.same(u.particle_locations, o[:, :, 0], "locations")
            elif isinstance(rs, gen.RecordingResampler): t.same(rs.calls[-1][1], o[:, :, 0], "resampled-before-step")
    t.describe("loop kind=%d n=%d data=%d batch=%s" % (kind, n, k, batch)); t.seen(("loop", kind, batch, n, u.resample_count > 0), k)


SECTIONS = [Section("identity", sec_identity, 150), Section("random-walk", sec_rw, 200), Section("gaussian-walk", sec_gauss, 450),
            Section("update-covariance", sec_cov, 250), Section("decorated", sec_decorated, 250), Section("diffusive", sec_diffusive, 40), Section("loop", sec_loop, 250)]
