"""C30: the full inference loop converges to the exact posterior.

Monitor: whole runs (prior sample, updates, resampling, time steps, credible
sets) on problems whose posterior is computed independently: dense importance
sampling from a plain-numpy prior, a conjugate formula, or a grid filter.
Self-normalised importance sampling is judged with its delta-method error;
runs with resampling as averages over independent runs, with alarms only when
independent repetitions agree.  Calibration: over truths drawn from the prior
and data simulated by the library, posterior ranks must be uniform.
"""
import numpy as np
from scipy import stats
import qinfer as qi
from qinfer import tomography as tm
from qinfer.abstract_model import FiniteOutcomeModel
from .core import Section, Skip
from .c15 import ks
from . import gen

RULE = ("an observation is one posterior mean, covariance, evidence, quantile level or rank compared with its exact value; "
        "distinct means a different (section, problem, data kind, history length class, resampler setting) combination")
ASSUMPTIONS = ["problems are unimodal (Liu-West resampling promises nothing on multimodal posteriors)",
               "deviations of resampled runs below a fifth of the posterior standard deviation are treated as the method's own bias"]


def sig(x): return 1 / (1 + np.exp(-x))


class Logit(FiniteOutcomeModel):
    """P(1) = sigmoid(s . x - b): log-concave in x, valid everywhere."""
    def __init__(self, d=1): self._d = d; super(Logit, self).__init__()
    @property
    def n_modelparams(self): return self._d
    @property
    def expparams_dtype(self): return [('s', float, (self._d,)), ('b', float)]
    @property
    def is_n_outcomes_constant(self): return True
    def n_outcomes(self, e): return 2
    def are_models_valid(self, m): return np.ones(len(m), bool)
    def likelihood(self, o, m, e):
        super(Logit, self).likelihood(o, m, e)
        p1 = sig(np.einsum('md,ed->me', m, e['s']) - e['b'][None])
        return FiniteOutcomeModel.pr0_to_likelihood_array(o, 1 - p1)


class Drift(Logit):
    """Parameters that move by a fixed amount with every experiment."""
    delta = 0.
    def update_timestep(self, m, e): return np.repeat((m + self.delta)[:, :, None], len(e), axis=2)


class Prob(object):
    continuous = False
    def __init__(self, name, model, prior, draw, exp, lik, step=None):
        self.name, self.model, self.prior, self.draw, self.exp, self.lik, self.step = name, model, prior, draw, exp, lik, step
    def outcomes(self, e): return np.asarray(self.model.domain(e)[0].values)
    def sim(self, r, x, e):
        """Outcome drawn by the reference law, not by the library."""
        os = self.outcomes(e); p = np.array([self.lik(o, x[None], e)[0] for o in os])
        return os[np.searchsorted(np.cumsum(p / p.sum()), r.rand()).clip(0, len(os) - 1)]


def bern(p1f): return lambda o, X, e: p1f(X, e) if int(o) else 1 - p1f(X, e)


def p_logit(rng):
    d = int(rng.choice([1, 1, 2, 3])); m = Logit(d); mu = rng.normal(size=d); C = np.diag(rng.uniform(.5, 2, d))
    if d > 1: C[0, 1] = C[1, 0] = .4 * np.sqrt(C[0, 0] * C[1, 1])
    prior = qi.NormalDistribution(mu[0], C[0, 0]) if d == 1 else qi.MultivariateNormalDistribution(mu, C)
    def exp(r):
        e = np.zeros(1, m.expparams_dtype); e['s'] = r.normal(size=d); e['b'] = r.normal() * .7; return e
    return Prob('logit%d' % d, m, prior, lambda r, n: r.multivariate_normal(mu, C, n), exp, bern(lambda X, e: sig(X @ e['s'][0] - e['b'][0])))

def beta_prior(rng):
    a, b = [(1., 1.), (2., 3.), (5., 2.), (3., 3.), (30., 40.)][rng.randint(5)]
    pr = qi.BetaDistribution(alpha=a, beta=b) if rng.rand() < .7 else qi.BetaDistribution(mean=a / (a + b), var=a * b / (a + b) ** 2 / (a + b + 1))
    return a, b, pr

def p_coin(rng):
    a, b, pr = beta_prior(rng); m = qi.CoinModel()
    return Prob('coin', m, pr, lambda r, n: r.beta(a, b, (n, 1)), lambda r: np.zeros(1, m.expparams_dtype), lambda o, X, e: 1 - X[:, 0] if int(o) else X[:, 0])

def p_binomial(rng, top=None):
    a, b, pr = beta_prior(rng); m = qi.BinomialModel(qi.CoinModel()); top = top or int(rng.choice([2, 4, 8, 20, 40]))
    def exp(r):
        e = np.zeros(1, m.expparams_dtype); e['n_meas'] = r.randint(1, top + 1); return e
    # the binomial model counts outcome 1 of the underlying coin
    return Prob('binomial', m, pr, lambda r, n: r.beta(a, b, (n, 1)), exp,
                lambda o, X, e: stats.binom.pmf(int(np.asarray(o).ravel()[0] if not np.asarray(o).dtype.names else np.asarray(o)['0']), int(e['n_meas'][0]), 1 - X[:, 0]))

def p_noisy(rng):
    a, b, pr = beta_prior(rng); m = qi.NoisyCoinModel()
    def exp(r):
        e = np.zeros(1, m.expparams_dtype); e['alpha'] = r.uniform(.7, 1); e['beta'] = r.uniform(0, .3); return e
    return Prob('noisy', m, pr, lambda r, n: r.beta(a, b, (n, 1)), exp, bern(lambda X, e: 1 - (X[:, 0] * e['alpha'][0] + (1 - X[:, 0]) * e['beta'][0])))

def p_precession(rng):
    inv = rng.rand() < .5
    m = qi.SimpleInversionModel() if inv else qi.SimplePrecessionModel()
    lo, hi = (.5, 1.5) if inv else (0., 1.); hi_t = 2.8 if not inv else 1.9
    def exp(r):
        if inv:
            e = np.zeros(1, m.expparams_dtype); e['t'] = r.uniform(.3, hi_t); e['w_'] = 0.; return e
        e = np.array([r.uniform(.3, hi_t)], dtype=m.expparams_dtype) if not np.dtype(m.expparams_dtype).names else np.zeros(1, m.expparams_dtype)
        if e.dtype.names: e[e.dtype.names[0]] = r.uniform(.3, hi_t)
        return e
    def t_of(e): return float(e['t'][0]) if inv else float(e[e.dtype.names[0]][0] if e.dtype.names else e[0])
    return Prob('inversion' if inv else 'precession', m, qi.UniformDistribution([lo, hi]), lambda r, n: r.uniform(lo, hi, (n, 1)), exp,
                bern(lambda X, e: np.sin(X[:, 0] * t_of(e) / 2) ** 2))

def p_rb(rng):
    m = qi.RandomizedBenchmarkingModel()
    R = np.array([[.7, 1.], [.3, .45], [.4, .5]])
    def exp(r):
        e = np.zeros(1, m.expparams_dtype); e['m'] = r.randint(1, 12); return e
    return Prob('rb', m, qi.UniformDistribution(R), lambda r, n: r.uniform(R[:, 0], R[:, 1], (n, 3)), exp,
                bern(lambda X, e: 1 - (1 - X[:, 1] * X[:, 0] ** int(e['m'][0]) - X[:, 2])) if False else _rb_lik)

def _rb_lik(o, X, e):
    f = X[:, 1] * X[:, 0] ** int(e['m'][0]) + X[:, 2]
    return f if int(o) == 1 else 1 - f

def p_die(rng):
    k = int(rng.randint(3, 5)); al = rng.uniform(1, 3, k); m = qi.NDieModel(k)
    return Prob('die%d' % k, m, qi.DirichletDistribution(al), lambda r, n: r.dirichlet(al, n), lambda r: np.zeros(1, m.expparams_dtype), lambda o, X, e: X[:, int(o)])

def p_tomo(rng):
    basis = tm.pauli_basis(1) if rng.rand() < .5 else tm.gell_mann_basis(2)
    m = tm.TomographyModel(basis); B = gen.basis_ops(basis)
    def draw(r, n):
        g = r.normal(size=(n, 2, 2)) + 1j * r.normal(size=(n, 2, 2)); rho = g @ g.conj().transpose(0, 2, 1)
        rho /= np.trace(rho, axis1=1, axis2=2)[:, None, None]
        return np.real(np.einsum('iab,nba->ni', B, rho))
    def exp(r):
        e = np.zeros(1, m.expparams_dtype); v = r.normal(size=2) + 1j * r.normal(size=2); v /= np.linalg.norm(v)
        e['meas'] = np.real(np.einsum('iab,ba->i', B, np.outer(v, v.conj()))); return e
    return Prob('tomography', m, tm.GinibreDistribution(basis, 2), draw, exp, lambda o, X, e: (lambda p: p if int(o) else 1 - p)(np.clip(X @ e['meas'][0], 0, 1)))

def p_mle(rng):
    s = p_coin(rng) if rng.rand() < .5 else p_logit(rng); w = float(rng.choice([.5, 2., 3.]))
    return Prob('mle-' + s.name, qi.MLEModel(s.model, w), s.prior, s.draw, s.exp, lambda o, X, e: s.lik(o, X, e) ** w)

ALL = [p_logit, p_coin, p_binomial, p_noisy, p_precession, p_rb, p_die, p_tomo, p_mle]
CALIB = [p_logit, p_coin, p_binomial, p_noisy, p_precession, p_rb, p_die, p_tomo]


def history(t, P, n):
    """Data history: simulated from a prior truth, or adversarially lopsided."""
    rng = t.rng; x = P.draw(rng, 1)[0]
    kind = ['simulated', 'simulated', 'alternating', 'mostly-one'][rng.randint(4)]
    es = [P.exp(rng) for _ in range(n)]
    if rng.rand() < .2: es = [es[0]] * n
    elif rng.rand() < .2: es = [es[i // 3] for i in range(n)]         # every experiment three times in a row
    os = []
    for i, e in enumerate(es):
        o = P.sim(rng, x, e)
        if kind == 'alternating': v = P.outcomes(e); o = v[i % len(v)]
        elif kind == 'mostly-one' and rng.rand() < .7: o = P.outcomes(e)[0]
        os.append(o)
    return kind, os, es


def reference(P, rng, os, es, N=120000):
    X = P.draw(rng, N); L = np.ones(N); lz = 0.
    for o, e in zip(os, es):
        L = L * P.lik(o, X, e); s = L.mean()
        if s <= 0: raise Skip
        lz += np.log(s); L /= s
    w = L / L.sum(); mu = w @ X; C = (X - mu).T @ (w[:, None] * (X - mu))
    f = 1 / (N * np.sum(w ** 2))
    if f * N < 6000: raise Skip
    d = X.shape[1]
    # delta-method standard errors of an n-particle importance estimate, times sqrt(n)
    se_mu = np.sqrt(N * np.sum(w[:, None] ** 2 * (X - mu) ** 2, axis=0))
    D = np.einsum('ni,nj->nij', X - mu, X - mu) - C
    se_C = np.sqrt(N * np.sum(w[:, None, None] ** 2 * D ** 2, axis=0))
    se_z = np.sqrt(max(1 / f - 1, 0))
    return dict(mu=mu, C=C, lz=lz, f=f, X=X, w=w, se_mu=se_mu, se_C=se_C, se_z=se_z, N=N, sd=np.sqrt(np.diag(C)))


def run(P, n, os, es, batch=False, **kw):
    u = qi.SMCUpdater(P.model, n, P.prior, **kw)
    if batch: u.batch_update(np.array(os), np.concatenate(es), batch)
    else:
        for o, e in zip(os, es): u.update(o, e)
    return u


def sec_exact(t):
    """No resampling: self-normalised importance sampling with its own error."""
    rng = t.rng; P = ALL[t.idx % len(ALL)](rng); m = int(rng.randint(1, 12))
    kind, os, es = history(t, P, m)
    R = reference(P, rng, os, es); n = 4000 if not t.thorough else 12000
    if R['f'] * n < 250: raise Skip
    t.describe((P.name, kind, m))
    def z():
        u = run(P, n, os, es, resample_thresh=0, batch=int(rng.choice([1, 3, 100])) if rng.rand() < .5 else False)
        # for its own particles the posterior is known without any sampling error
        lw = sum(np.log(np.maximum(P.lik(o, np.asarray(u.particle_locations), e), 1e-300)) for o, e in zip(os, es)); ww = np.exp(lw - lw.max()); ww /= ww.sum()
        t.close(u.particle_weights, ww, "exact-weights", rtol=1e-6, atol=1e-9 / n, msg="%s, %d steps" % (P.name, m))
        k = np.sqrt(1. / n + 1. / R['N'])
        floor = 1e-9
        zs = dict(mean=np.max(np.abs(u.est_mean() - R['mu']) / (R['se_mu'] * k + floor)),
                  covariance=np.max(np.abs(u.est_covariance_mtx() - R['C']) / (R['se_C'] * k + floor)),
                  evidence=abs(float(u.log_total_likelihood) - R['lz']) / (R['se_z'] * k + floor))
        q = []
        v = rng.normal(size=R['X'].shape[1]); px, pr = u.particle_locations @ v, R['X'] @ v
        order = np.argsort(pr); cw = np.cumsum(R['w'][order])
        for a in (.05, .25, .5, .75, .95):
            c = pr[order][min(np.searchsorted(cw, a), len(cw) - 1)]
            got = u.particle_weights[px <= c].sum(); want = R['w'][pr <= c].sum()
            se = np.sqrt(R['N'] * np.sum(R['w'] ** 2 * ((pr <= c) - want) ** 2)) * k
            q.append(abs(got - want) / (se + floor))
        zs['quantile'] = max(q)
        t.evaluations += 4; t.count("exact comparisons", 4)
        return zs
    a = z()
    for key in sorted(a):
        t.count("|z| above 3", a[key] > 3)
        if a[key] > 5.5:
            b, c = z(), z()
            t.check(min(b[key], c[key]) < 5.5, "exact-" + key, "%s, %s data, %d steps: off by %.1f, %.1f, %.1f standard errors" % (P.name, kind, m, a[key], b[key], c[key]))
    t.seen((P.name, kind, m > 5))


def sec_long(t):
    """Long records: after hundreds of data the weights and the evidence are still those of all the data."""
    rng = t.rng; P = ALL[t.idx % len(ALL)](rng); m = int(rng.randint(50, 400)); n = 150
    kind, os, es = history(t, P, m); cut = sorted(rng.randint(1, m, 3).tolist()) + [m]
    u = qi.SMCUpdater(P.model, n, P.prior, resample_thresh=0)
    X = np.array(u.particle_locations); lw = np.zeros(n); dead = np.zeros(n, bool); zs = [np.log(n)]
    batch = int(rng.choice([1, 7, 100])) if rng.rand() < .3 else 0
    t.describe((P.name, kind, m, batch))
    for a, b in zip([0] + cut[:-1], cut):
        if a == b: continue
        for o, e in zip(os[a:b], es[a:b]):
            lw = lw + np.log(P.lik(o, X, e))
            zs.append(lw.max() + np.log(np.exp(lw - lw.max()).sum()) if lw.max() > -np.inf else -np.inf)
            if not zs[-1] - zs[-2] > -30: raise Skip                 # a datum all but impossible: C03's subject
            dead |= lw.max() - lw > 600                          # below the range of floating point for a while
        if np.exp(lw[dead] - lw.max()).sum() > 1e-13: raise Skip
        if batch: u.batch_update(np.array(os[a:b]), np.concatenate(es[a:b]), batch)
        else:
            for o, e in zip(os[a:b], es[a:b]): u.update(o, e)
        t.same(np.asarray(u.particle_locations), X, "moved")
        ww = np.exp(lw - lw.max()); z = lw.max() + np.log(ww.sum()) - np.log(n); ww /= ww.sum()
        if lw.max() < -500: t.count("records beyond the range of floating point")
        t.close(u.particle_weights, ww, "long-weights", rtol=1e-5, atol=1e-12, msg="%s after %d data" % (P.name, b))
        t.close(float(u.log_total_likelihood), z, "long-evidence", rtol=1e-6, atol=1e-6, msg="%s after %d data" % (P.name, b))
        t.close(u.est_mean(), ww @ X, "long-mean", rtol=1e-5, atol=1e-8)
        t.check(len(u.data_record) == b, "long-record", "%d of %d" % (len(u.data_record), b))
        t.seen((P.name, kind, b // 60, bool(batch)), 4)


def judge_runs(t, label, stage, limits):
    """stage() -> {quantity: (values over independent runs, exact, scale)}.  Alarm: the same
    quantity is beyond bias allowance + 5 standard errors, twice in a row."""
    a = stage(); bad = {}
    def excess(v, want, scale, lim):
        v = np.asarray(v, float) / scale; se = v.std(ddof=1) / np.sqrt(len(v))
        return abs(v.mean() - want / scale) - lim - 5 * se
    for k, (v, want, scale) in a.items():
        t.evaluations += 1; t.count("averaged comparisons")
        if not np.all(np.isfinite(v)): t.fail(label + "-" + k[0], "not finite: %r" % (v,))
        if excess(v, want, scale, limits[k[0]]) > 0: bad[k] = (np.mean(v), want, scale)
    if not bad: return
    t.count("second stages")
    for _ in range(2):
        b = stage()
        for k in list(bad):
            if excess(*b[k], lim=limits[k[0]]) <= 0: bad.pop(k)
        if not bad: return
    k = sorted(bad, key=repr)[0]
    t.fail(label + "-" + k[0], "%s: average %.4g, exact %.4g, unit %.3g (three independent batches of runs agree)" % ((k,) + bad[k]))


LIM = dict(mean=.2, sd=.2, evidence=.2, quantile=.06)


def normality(R, v):
    """Largest distance of a marginal of the exact posterior from a normal law: Liu-West
    resampling preserves two moments, so resampled runs are judged on near-Gaussian posteriors."""
    D = 0.
    for u in list(np.eye(len(v))) + [v]:
        x = R['X'] @ u; m = R['w'] @ x; sd = np.sqrt(R['w'] @ (x - m) ** 2)
        if sd < 1e-9: continue
        i = np.argsort(x); D = max(D, np.max(np.abs(np.cumsum(R['w'][i]) - stats.norm.cdf((x[i] - m) / sd))))
    return D


def sec_loop(t):
    rng = t.rng; P = ALL[t.idx % len(ALL)](rng, **(dict(top=int(rng.randint(2, 9))) if ALL[t.idx % len(ALL)] is p_binomial else {})); m = int(rng.randint(10, 45))
    if P.name == 'coin' and rng.rand() < .5: m = int(rng.randint(70, 160))
    for _ in range(12):
        kind, os, es = history(t, P, m)
        R = reference(P, rng, os, es); v = rng.normal(size=R['X'].shape[1])
        D = normality(R, v)
        if D < .06: break
        t.count("histories with non-Gaussian posteriors left out")
    else: raise Skip
    a = float(rng.choice([.98, .98, .95])); th = float(rng.choice([.5, .8, 1., 1.] if "logit" in P.name else [.5, .5, .3]))
    n = 1000; K = 8; counts = []
    batch = int(rng.choice([0, 0, 1, 5]))
    t.describe((P.name, kind, m, a, th, batch))
    pr = R['X'] @ v; order = np.argsort(pr); cw = np.cumsum(R['w'][order])
    cs = [(q, pr[order][min(np.searchsorted(cw, q), len(cw) - 1)]) for q in (.1, .5, .9)]
    cs = [(q, c, R['w'][pr <= c].sum()) for q, c in cs]
    use = R['sd'] > 1e-6
    def stage():
        us = [run(P, n, os, es, batch=batch, resampler=qi.LiuWestResampler(a), resample_thresh=th) for _ in range(K)]
        counts.extend(u.resample_count for u in us)
        out = {}
        for i in np.flatnonzero(use):
            out['mean', i] = ([u.est_mean()[i] for u in us], R['mu'][i], R['sd'][i])
            out['sd', i] = ([np.sqrt(u.est_covariance_mtx()[i, i]) for u in us], R['sd'][i], R['sd'][i])
        out['evidence', 0] = ([float(u.log_total_likelihood) for u in us], R['lz'], 1.)
        for q, c, want in cs:
            out['quantile', q] = ([u.particle_weights[u.particle_locations @ v <= c].sum() for u in us], want, 1.)
        return out
    judge_runs(t, "loop", stage, LIM)
    t.count("resamplings", sum(counts)); t.count("runs", len(counts))
    t.seen((P.name, kind, m // 15, a, th, bool(batch), max(counts) > 0))


def sec_walk(t):
    """Drifting parameters against an exact grid filter."""
    rng = t.rng; s2 = float(rng.choice([.01, .05, .2])); m = int(rng.randint(8, 30)); mu0, v0 = rng.normal(), float(rng.uniform(.5, 1.5))
    base = Logit(1)
    drift = rng.rand() < .4; delta = float(rng.choice([-40, 30, 60])) * .01
    if drift: model, kind = Drift(1), 'drift'; model.delta = delta
    elif rng.rand() < .5: model, kind = qi.RandomWalkModel(base, qi.NormalDistribution(0, s2)), 'random-walk'
    else: model, kind = qi.GaussianRandomWalkModel(base, fixed_covariance=np.array([s2])), 'gaussian-walk'
    prior = qi.NormalDistribution(mu0, v0)
    g = np.linspace(-14, 14, 2801); h = g[1] - g[0]
    p = np.exp(-(g - mu0) ** 2 / 2 / v0); p /= p.sum()
    kern = np.exp(-(np.arange(-1400, 1401) * h) ** 2 / 2 / s2); kern /= kern.sum()
    x = rng.normal(mu0, np.sqrt(v0)); os = []; es = []; lz = 0.
    for _ in range(m):
        e = np.zeros(1, base.expparams_dtype); e['s'] = rng.choice([.5, 1., 2.]); e['b'] = rng.normal()
        if drift: e['b'] += x * e['s'][0, 0]          # keep the data informative while the parameter moves off
        o = int(rng.rand() < sig(x * e['s'][0, 0] - e['b'][0])); x += delta if drift else rng.normal() * np.sqrt(s2)
        p1 = sig(g * e['s'][0, 0] - e['b'][0]); p = p * (p1 if o else 1 - p1); lz += np.log(p.sum()); p /= p.sum()
        from scipy.signal import fftconvolve
        if drift: g = g + delta
        else: p = np.maximum(fftconvolve(p, kern, mode='same'), 0); p /= p.sum()       # the model's step follows each datum
        os.append(o); es.append(e)
    mu = p @ g; sd = np.sqrt(p @ (g - mu) ** 2)
    t.describe((kind, s2, m))
    P = Prob(kind, model, prior, None, None, None)
    def conv(e):
        out = np.zeros(1, model.expparams_dtype)
        for nme in e.dtype.names: out[nme] = e[nme]
        return out
    es2 = [conv(e) for e in es]
    counts = []
    def stage():
        us = [run(P, 1200, os, es2) for _ in range(8)]; counts.extend(u.resample_count for u in us)
        return {('mean', 0): ([u.est_mean()[0] for u in us], mu, sd), ('sd', 0): ([np.sqrt(u.est_covariance_mtx()[0, 0]) for u in us], sd, sd),
                ('evidence', 0): ([float(u.log_total_likelihood) for u in us], lz, 1.)}
    judge_runs(t, "walk", stage, LIM)
    t.count("runs", len(counts)); t.count("resamplings", sum(counts))
    t.seen((kind, s2, m // 10, max(counts) > 0))


def sec_calibration(t):
    """Truth from the prior, data from the library's simulator: uniform posterior ranks."""
    rng = t.rng; P = CALIB[t.idx % len(CALIB)](rng, **(dict(top=int(rng.randint(2, 9))) if CALIB[t.idx % len(CALIB)] is p_binomial else {})); m = int(rng.randint(3, 13)); n = 300
    th = float(rng.choice([0, .5, .5])); v = rng.normal(size=P.draw(rng, 1).shape[1])
    es = [P.exp(rng) for _ in range(m)]; t.describe((P.name, m, th)); rs = [0]
    def pvalue(k):
        u = np.empty(k)
        for j in range(k):
            x = P.prior.sample(1); up = qi.SMCUpdater(P.model, n, P.prior, resample_thresh=th)
            for e in es: up.update(P.model.simulate_experiment(x, e), e)
            px, tx = up.particle_locations @ v, float(x[0] @ v)
            u[j] = up.particle_weights[px < tx].sum(); rs[0] += up.resample_count
        return ks(u, lambda y: np.clip(y, 0, 1)), "%s, %d data, mean rank %.3f, sd %.3f" % (P.name, m, u.mean(), u.std())
    t.stat("rank", pvalue, 100)
    t.count("resamplings", rs[0]); t.seen((P.name, m // 4, th))


def sec_consistency(t):
    """More particles get closer: root-mean-square error of the mean shrinks like 1/sqrt(n)."""
    rng = t.rng; P = [p_logit, p_coin, p_rb, p_tomo, p_precession][t.idx % 5](rng); m = int(rng.randint(3, 10))
    kind, os, es = history(t, P, m); R = reference(P, rng, os, es)
    if R['f'] < .05: raise Skip
    t.describe((P.name, kind, m)); use = R['sd'] > 1e-6
    def rmse(n, k): return np.sqrt(np.mean([np.sum(((run(P, n, os, es, resample_thresh=0).est_mean() - R['mu'])[use] / R['sd'][use]) ** 2) for _ in range(k)]))
    want = np.sqrt(np.sum((R['se_mu'][use] / R['sd'][use]) ** 2))
    for n in (200, 3200):
        for attempt in range(3):
            r = rmse(n, 24) * np.sqrt(n) / want; t.evaluations += 1
            if .5 < r < 1.9: break
        else: t.fail("rate", "%s: error with %d particles is %.2f of the theoretical one" % (P.name, n, r))
    t.seen((P.name, kind, m > 5))


SECTIONS = [Section("exact", sec_exact, 216), Section("long", sec_long, 108), Section("loop", sec_loop, 54), Section("walk", sec_walk, 16),
            Section("calibration", sec_calibration, 32), Section("consistency", sec_consistency, 15)]
