"""C26: Bayesian Cramer-Rao tracking accumulates the right information.

Monitor: priors carry their own random stream and record every sample they
hand out, so each update's information increment is recomputed exactly from
the samples it was averaged over; a plain updater runs in lockstep.
"""
import numpy as np
import qinfer as qi
from qinfer.distributions import Distribution
from qinfer.abstract_model import DifferentiableModel
from .core import Section, Skip
from . import gen
from .c13 import reference

RULE = ("an observation is one information matrix reconciled with the recorded samples, or one updater state compared with the plain "
        "updater; distinct means a different (model, prior, adaptive, initial matrix, history position class) combination")
ASSUMPTIONS = ["the prior average is a Monte Carlo average over fresh prior samples; it is judged exactly when the samples drawn during the update are seen, "
               "and otherwise within 8 standard errors of an independent average",
               "experiments of zero duration, for which one outcome is impossible and its score undefined, are not judged (as in C13)",
               "a uniform prior has zero score, as the library's uniform distribution documents"]


class OwnPrior(Distribution):
    def __init__(self, draw, d, seed, grad=None):
        self._draw, self._d, self._r = draw, d, np.random.RandomState(seed); self.samples = []; self._grad = grad
    @property
    def n_rvs(self): return self._d
    def sample(self, n=1):
        s = np.array(self._draw(self._r, int(n)), dtype=float); self.samples.append(s.copy()); return s
    def grad_log_pdf(self, x):
        return self._grad(x)


class Die(qi.FiniteOutcomeModel, DifferentiableModel):
    """Two-parameter, three-outcome differentiable model with experiment-dependent scale."""
    @property
    def n_modelparams(self): return 2
    @property
    def expparams_dtype(self): return [('a', 'float'), ('b', 'float')]
    @property
    def is_n_outcomes_constant(self): return True
    def n_outcomes(self, e): return 3
    def are_models_valid(self, m): return np.all((m > -9) & (m < 9), axis=1)
    def _z(self, x, e):
        z = np.stack([np.zeros((len(x), len(e))), x[:, :1] * e['a'][None], x[:, 1:] * e['b'][None] + x[:, :1]])
        p = np.exp(z - z.max(axis=0)); return p / p.sum(axis=0)
    def likelihood(self, o, x, e):
        super(Die, self).likelihood(o, x, e)
        return self._z(x, e)[np.asarray(o, dtype=int)]
    def score(self, o, x, e, return_L=False):
        p = self._z(x, e); dz = np.zeros((2,) + p.shape)
        dz[0, 1] = e['a'][None]; dz[0, 2] = 1; dz[1, 2] = e['b'][None]
        q = (dz - np.sum(p * dz, axis=1, keepdims=True))[:, np.asarray(o, dtype=int)]
        return (q, self.likelihood(o, x, e)) if return_L else q


def s_die(rng):
    m = Die()
    def eps(r, n): e = np.zeros(n, dtype=m.expparams_dtype); e['a'] = r.uniform(-2, 2, n); e['b'] = r.uniform(-2, 2, n); return e
    def pr(o, x, e):
        z = np.array([0, x[0] * e['a'], x[1] * e['b'] + x[0]]); p = np.exp(z); return p[int(o)] / p.sum()
    return gen.Spec("die", m, lambda r, n: r.standard_normal((n, 2)), eps, lambda e: [0, 1, 2], pr)


def pick(rng):
    s = pick0(rng); raw = s.eps
    def eps(r, n):                 # no experiment without duration: one outcome is then impossible for all models
        e = raw(r, n)
        if e.dtype.names is None: e[e == 0] = 1
        for f in ('t', 'x'):
            if f in (e.dtype.names or ()): e[f][e[f] == 0] = 1
        return e
    s.eps = eps
    return s


def pick0(rng):
    k = rng.randint(6)
    if k == 5:
        b = [gen.s_precession, gen.s_coin, lambda r: gen.s_rb(r, il=False)][rng.randint(3)](rng)
        s = gen.s_binomial(rng, b)
        s.model = qi.DifferentiableBinomialModel(b.model); s.name = "Differentiable" + s.name
    else:
        s = [gen.s_precession, gen.s_inversion, gen.s_coin, lambda r: gen.s_rb(r, il=bool(r.randint(2))), s_die][k](rng)
    # keep away from the edges, where information diverges
    if 'Coin' in s.name:
        s.mps = lambda r, n: r.uniform(.05, .95, (n, 1))
        if rng.rand() < .3:         # ... or close to them, where it is large but finite
            s.mps = lambda r, n: np.where(r.rand(n, 1) < .5, r.uniform(.05, .95, (n, 1)), 10. ** r.uniform(-8, -3, (n, 1)))
    return s


def prior_of(rng, s, seed):
    """(kind, constructor) of a prior with a known score."""
    d = s.model.n_modelparams; k = rng.randint(3)
    if k == 0: return 'zero score', lambda: OwnPrior(s.mps, d, seed, lambda x: np.zeros(x.shape))
    x = s.mps(rng, 200); mu = x.mean(axis=0); sd = x.std(axis=0) * .3
    lo, hi = x.min(axis=0), x.max(axis=0)
    def draw(r, n): return np.clip(mu + sd * r.standard_normal((n, d)), lo, hi)
    if k == 1:
        iv = np.diag(1 / sd ** 2)
        if d > 1: M = rng.standard_normal((d, d)) * .2; iv = iv + M.dot(M.T)
        return 'normal', lambda: OwnPrior(draw, d, seed, lambda x: -(x - mu).dot(iv))
    return 'cubic', lambda: OwnPrior(draw, d, seed, lambda x: -((x - mu) / sd) ** 3)


def outcome(rng, s, e, x):
    p = np.array([max(0., s.pr(o, x, e[0])) for o in s.outs(e[0])])
    return s.outs(e[0])[rng.choice(len(p), p=p / p.sum())]


def mean_fi(m, X, e, w=None):
    F = m.fisher_information(X, e)
    return np.einsum('m,ijme->ije', np.ones(len(X)) / len(X) if w is None else w, F)


def psd(t, M, mech, scale):
    t.close(M, M.T, mech + "-asymmetric", rtol=1e-9, atol=1e-12 * scale)
    w = np.linalg.eigvalsh((M + M.T) / 2)
    t.check(w.min() >= -1e-9 * max(scale, 1e-300), mech + "-decreases", lambda: "eigenvalues %s" % w)


def sec_history(t):
    rng = t.rng
    s = pick(rng); m = s.model; d = m.n_modelparams
    seed = int(rng.randint(2 ** 31)); kind, mk = prior_of(rng, s, seed)
    n = int(rng.choice([2, 3, 20, 60])) if rng.rand() < .5 else int(rng.choice([rng.randint(2, 40), rng.randint(2, 40), 1500])); adaptive = rng.rand() < .6; own = rng.rand() < .4
    G = rng.standard_normal((d, d)); B0 = G.dot(G.T) * 3
    if rng.rand() < .3: K = np.rint(2 * G).astype(int); B0 = np.asfortranarray(K.dot(K.T))
    kw = {}
    if adaptive: kw['adaptive'] = True
    elif rng.rand() < .3: kw['adaptive'] = False
    if own: kw['initial_bim'] = B0
    elif rng.rand() < .2: kw['initial_bim'] = None
    opts = dict(resample_thresh=float(rng.choice([0, .5, .9, 1.])), zero_weight_policy='ignore')
    if rng.rand() < .3: opts['resampler'] = qi.LiuWestResampler(a=float(rng.choice([.9, .98])))
    elif rng.rand() < .3: opts['resample_a'] = .95
    if rng.rand() < .3: opts['track_resampling_divergence'] = True
    if rng.rand() < .3: opts['canonicalize'] = False
    P, Q = mk(), mk(); p0 = B0.copy()
    pos = rng.rand() < .3
    t.describe((s.name, kind, n, adaptive, own, sorted(opts)))
    u = qi.SMCUpdaterBCRB(m, n, P, **dict(opts, **kw))
    v = qi.SMCUpdater(m, n, Q, **opts)
    t.check(isinstance(u, qi.SMCUpdater) and u.track_adaptive == adaptive, "track_adaptive", "")
    X0 = u.particle_locations.copy(); t.same(v.particle_locations, X0, "initial-particles")
    if own: cur = p0.astype(float)
    else: g = P.grad_log_pdf(X0); cur = np.einsum('ni,nj->ij', g, g) / n
    t.check(u.current_bim.shape == (d, d), "bim-shape", lambda: repr(u.current_bim.shape))
    t.close(u.current_bim, cur, "initial-information", rtol=1e-9, atol=1e-9)
    ada = cur.copy()
    if adaptive: t.close(u.adaptive_bim, cur, "initial-adaptive", rtol=1e-9, atol=1e-9)
    else:
        try: u.adaptive_bim
        except ValueError: pass
        else: t.fail("adaptive-without-asking", "")
    cur = u.current_bim; ada = u.adaptive_bim if adaptive else None
    first = cur; first_copy = cur.copy()
    true = s.mps(rng, 1)[0]
    steps = int(rng.randint(2, 7)); batch = rng.rand() < .2
    if batch:
        es = s.eps(rng, steps); os_ = np.array([outcome(rng, s, es[i:i + 1], true) for i in range(steps)])
        before = len(P.samples); st = np.random.get_state()
        try:
            u.batch_update(os_, es, resample_interval=2)
        except Exception as e:
            if not own and not np.all(np.isfinite(u.particle_weights)): raise Skip
            raise
        np.random.set_state(st); v.batch_update(os_, es, resample_interval=2)
        new = P.samples[before:]
        if len(new) == steps:
            want = cur + sum(mean_fi(m, X, es[i:i + 1])[:, :, 0] for i, X in enumerate(new))
            t.close(u.current_bim, want, "batch-information", rtol=1e-8, atol=1e-8 * np.abs(want).max())
        t.check(not gen.sdiff(gen.snapshot(u), gen.snapshot(v)), "inference-differs", lambda: "after a batch: %s" % gen.sdiff(gen.snapshot(u), gen.snapshot(v)))
        t.seen((s.name, kind, 'batch', adaptive)); return
    for k in range(steps):
        e = s.eps(rng, 1); o = outcome(rng, s, e, true); e0 = e.copy()
        # predictions change nothing
        if rng.rand() < .6:
            ee = s.eps(rng, int(rng.randint(1, 4))); ns = None if rng.rand() < .5 else int(rng.choice([1, 7, 40]))
            st = np.random.get_state(); b = len(P.samples); before = gen.snapshot(u)
            I = u.prior_bayes_information(ee) if ns is None else u.prior_bayes_information(ee, n_samples=ns)
            J = u.posterior_bayes_information(ee)
            np.random.set_state(st)
            for M in (I, J): t.check(M.shape == (d, d, len(ee)), "prediction-shape", lambda: repr(M.shape))
            t.close(J, mean_fi(m, u.particle_locations, ee, u.particle_weights), "posterior-information", rtol=1e-8, atol=1e-9 * np.abs(J).max())
            smp = P.samples[b:]
            t.check(sum(map(len, smp)) == (n if ns is None else ns), "prediction-samples", lambda: "%s drawn" % list(map(len, smp)))
            t.close(I, mean_fi(m, np.concatenate(smp), ee), "prior-information", rtol=1e-8, atol=1e-9 * np.abs(I).max())
            t.same(u.current_bim, cur, "prediction-changes-information")
            if adaptive: t.same(u.adaptive_bim, ada, "prediction-changes-information")
            t.check(not gen.sdiff(before, gen.snapshot(u)), "prediction-changes-state", lambda: repr(gen.sdiff(before, gen.snapshot(u))))
        w, X = u.particle_weights.copy(), u.particle_locations.copy(); b = len(P.samples)
        chk = rng.rand() < .8; st = np.random.get_state()
        if chk and rng.rand() < .5: u.update(o, e)
        else: u.update(o, e, check_for_resample=chk)
        end = np.random.get_state()[2]
        np.random.set_state(st); v.update(o, e, check_for_resample=chk)
        smp = P.samples[b:]
        scale = np.abs(u.current_bim).max()
        if smp:
            inc = mean_fi(m, np.concatenate(smp), e)[:, :, 0]
            t.close(u.current_bim, cur + inc, "information-increment", rtol=1e-8, atol=1e-9 * scale, msg="update %d" % k)
        else:
            F = m.fisher_information(s_prior_sample(mk, 4000), e)[:, :, :, 0]
            se = F.std(axis=2) / np.sqrt(n) + 1e-9
            t.check(np.all(np.abs(u.current_bim - cur - F.mean(axis=2)) < 8 * se + 1e-9 * scale), "information-increment", lambda: "update %d, no prior samples" % k)
        psd(t, u.current_bim - cur, "information", max(scale, 1)); psd(t, u.current_bim, "bim", max(scale, 1))
        cur = u.current_bim
        if adaptive:
            inc = mean_fi(m, X, e, w)[:, :, 0]
            t.close(u.adaptive_bim, ada + inc, "adaptive-increment", rtol=1e-8, atol=1e-9 * max(np.abs(u.adaptive_bim).max(), 1), msg="update %d" % k)
            psd(t, u.adaptive_bim - ada, "adaptive", max(np.abs(u.adaptive_bim).max(), 1)); ada = u.adaptive_bim
        t.same(e, e0, "argument-changed")
        t.check(not gen.sdiff(gen.snapshot(u), gen.snapshot(v)), "inference-differs", lambda: "update %d: %s" % (k, gen.sdiff(gen.snapshot(u), gen.snapshot(v))))
        if not np.all(np.isfinite(u.particle_weights)) or u.particle_weights.sum() == 0: break
        t.seen((s.name, kind, adaptive, own, k > 0, u.just_resampled))
        # what was handed out stays as it was, and scribbling on it has no effect
        c = u.current_bim; c[...] = -7; t.same(u.current_bim, cur, "information-aliased")
        if adaptive: c = u.adaptive_bim; c[...] = -7; t.same(u.adaptive_bim, ada, "information-aliased")
    t.same(first, first_copy, "earlier-result-changed"); t.same(B0, p0, "initial_bim-changed")


def s_prior_sample(mk, n): return mk().sample(n)


def sec_reference(t):
    """Increments against information computed from the documented likelihoods by differences, and library priors."""
    rng = t.rng
    s = pick(rng); m = s.model; d = m.n_modelparams
    if s.name.startswith('Diff'): raise Skip
    kind, mk = prior_of(rng, s, int(rng.randint(2 ** 31)))
    n = int(rng.choice([2, 5])); P = mk()
    u = qi.SMCUpdaterBCRB(m, n, P, initial_bim=np.zeros((d, d)), adaptive=True)
    t.describe(('reference', s.name, kind, n))
    e = s.eps(rng, 1); outs = np.array(s.outs(e[0])); X = u.particle_locations.copy(); w = np.ones(n) / n
    b = len(P.samples); u.update(outs[0], e); smp = np.concatenate(P.samples[b:]) if P.samples[b:] else None
    def info(X, w):
        Gr, p = reference(s, outs, X, e)
        if p.min() < 1e-4: raise Skip
        return np.einsum('m,iom,jom,om->ij', w, Gr[..., 0], Gr[..., 0], 1 / p[..., 0])
    t.close(u.adaptive_bim, info(X, w), "information", rtol=1e-4, atol=1e-6)
    if smp is not None: t.close(u.current_bim, info(smp, np.ones(len(smp)) / len(smp)), "information", rtol=1e-4, atol=1e-6)
    t.seen(('reference', s.name, kind))


def sec_library(t):
    rng = t.rng
    k = rng.randint(3); n = int(rng.choice([50, 400]))
    if k == 0:
        mu, var = float(rng.uniform(.4, .6)), float(rng.uniform(.001, .01))
        P, m = qi.NormalDistribution(mu, var), qi.CoinModel(); iv = np.array([[1 / var]]); mean = np.array([mu]); e = np.zeros(1, dtype=m.expparams_dtype)
    elif k == 1:
        C = np.diag([.02, .02, .01]) ** 2 + 1e-5; mean = np.array([.9, .4, .5])
        P, m = qi.MultivariateNormalDistribution(mean, C), qi.RandomizedBenchmarkingModel(); iv = np.linalg.inv(C); e = np.array([(4,)], dtype=m.expparams_dtype)
    else:
        P, m = qi.UniformDistribution([0, 1]), qi.SimplePrecessionModel(); iv = np.zeros((1, 1)); mean = np.array([.5]); e = np.array([3.])
    u = qi.SMCUpdaterBCRB(m, n, P, adaptive=True)
    t.describe(('library', type(P).__name__, n))
    g = -(u.particle_locations - mean).dot(iv)
    t.close(u.current_bim, np.einsum('ni,nj->ij', g, g) / n, "initial-information", rtol=1e-8, atol=1e-8)
    t.check(np.linalg.norm(u.current_bim - iv) <= (8 * (3. / n) ** .5 * len(iv)) * np.linalg.norm(iv) + 1e-9, "initial-information", lambda: "%s, prior information %s" % (u.current_bim, iv))
    a = u.current_bim; u.update(0, e)
    psd(t, u.current_bim - a, "information", np.abs(a).max() + 1)
    t.check(np.trace(u.current_bim - a) > 0, "no-information", "")
    if k == 2: t.close(u.current_bim, [[9.]], "precession-information", rtol=1e-6); t.close(u.adaptive_bim, [[9.]], "precession-information", rtol=1e-6)
    try: qi.SMCUpdaterBCRB(qi.NoisyCoinModel(), 5, qi.UniformDistribution([0, 1]))
    except ValueError: pass
    else: t.fail("non-differentiable-accepted", "")
    t.seen(('library', k, n))


SECTIONS = [Section("history", sec_history, 800), Section("reference", sec_reference, 200), Section("library", sec_library, 30)]
