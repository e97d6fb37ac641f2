"""C25: adaptive likelihood estimation is unbiased and meets its tolerance.

Monitor: every call of the simulator made inside one likelihood evaluation is
logged with its results; the estimate, the number of samples and the stopping
decision are recomputed from that log alone.
"""
import math, pickle
import numpy as np
from scipy import stats
import qinfer as qi
import qinfer.ale as ale
from qinfer.abstract_model import Simulatable, Model
from qinfer.domains import IntegerDomain
from .core import Section, Skip
from . import gen
from .c15 import mean_z

RULE = ("an observation is one estimated likelihood array reconciled with the log of samples drawn for it, or one three-stage law test; "
        "distinct means a different (simulator, batch shape, minimum, step, hedges, tolerance class, stopping round class) combination")
ASSUMPTIONS = ["two-outcome simulators with outcomes 0 and 1",
               "unbiasedness is judged where the tolerance is met at the minimum sample size whatever is drawn, since optional stopping itself biases the rest",
               "estimated error means the error the library's own estimator formula gives for the counts and the stated adaptive hedging"]


class PureSim(Simulatable):
    """A simulator that is not a Model: no likelihood at all."""
    def __init__(self, short=False):
        super(PureSim, self).__init__(); self.calls = 0; self.mode = short
    @property
    def n_modelparams(self): return 2
    @property
    def expparams_dtype(self): return [('g', 'float')]
    @property
    def is_n_outcomes_constant(self): return True
    def n_outcomes(self, expparams): return 2
    def domain(self, expparams): return IntegerDomain(min=0, max=1) if expparams is None else [IntegerDomain(min=0, max=1)] * len(expparams)
    def are_models_valid(self, mps): return np.all((mps >= 0) & (mps <= 1), axis=1)
    def simulate_experiment(self, mps, eps, repeat=1):
        super(PureSim, self).simulate_experiment(mps, eps, repeat)
        self.calls += 1
        p = mps[:, :1] * (1 - eps['g'])[None] + mps[:, 1:2] * eps['g'][None]
        x = (np.random.rand(repeat, len(mps), len(eps)) < p[None])
        x = x.astype([int, np.uint8, bool, float][self.mode])
        return x[0, 0, 0] if repeat == 1 and p.size == 1 else x


def pick(rng):
    if rng.rand() < .3:
        m = PureSim(int(rng.randint(4)))
        def eps(r, n): e = np.zeros(n, dtype=m.expparams_dtype); e['g'] = r.rand(n); return e
        return gen.Spec("simulator only", m, lambda r, n: r.rand(n, 2) ** r.choice([.2, 1, 4]), eps, gen.two, gen.flip(lambda x, e: x[0] * (1 - e['g']) + x[1] * e['g']))
    return gen.TWO_OUTCOME[rng.randint(len(gen.TWO_OUTCOME))](rng)


def record(model):
    log = []; real = model.simulate_experiment
    def sim(mps, eps, repeat=1):
        out = real(mps, eps, repeat=repeat)
        log.append((np.array(mps), np.array(eps), int(repeat), np.array(out, dtype=float).reshape(repeat, len(mps), len(eps))))
        return out
    model.simulate_experiment = sim
    return log


def err(k, N, h):
    p = (k + h) / (N + 2. * h)
    return np.sqrt(p * (1 - p) / (N + 2. * h + 1))


def sec_estimate(t):
    rng = t.rng
    s = pick(rng)
    tol = float(rng.choice([.03, .05, .1, .2, .4, 1.])); ms = int(rng.choice([1, 2, 5, 10, 37])); st = int(rng.choice([1, 3, 10, 50]))
    if tol < .05: st = max(st, 10)
    tight = rng.rand() < .1                                    # thousands of steps from a small start
    if tight: tol, ms, st = float(rng.choice([4e-3, 6e-3])), int(rng.choice([1, 2, 5])), int(rng.choice([100, 400]))
    eh = float(rng.choice([0, .1, .509, 2])); ah = float(rng.choice([0, .1, .509, 2]))
    default = rng.rand() < .08
    if default: m = ale.ALEApproximateModel(s.model); tol, ms, st, eh, ah = 1e-2, 10, 10, .509, .509
    else: m = ale.ALEApproximateModel(s.model, error_tol=tol, min_samp=ms, samp_step=st, est_hedge=eh, adapt_hedge=ah)
    if rng.rand() < .2: m = ale.ALEApproximateModel(s.model, tol, ms, st, eh, ah)
    if default or tight: nm, ne = 1, int(rng.randint(1, 3))
    else: nm, ne = [(1, 1), (1, 1), (1, 4), (5, 1), (3, 2), (20, 3)][rng.randint(6)]
    t.describe((s.name, tol, ms, st, eh, ah, nm, ne))
    log = record(s.model)
    for _ in range(3):
        mps = s.mps(rng, nm); eps = s.eps(rng, ne); m0, e0 = mps.copy(), eps.copy()
        outs = [np.array([0, 1]), np.array([1]), np.array([0]), np.array([1, 0, 1])][rng.randint(4)]
        del log[:]
        L = m.likelihood(outs, mps, eps)
        t.check(isinstance(L, np.ndarray) and L.shape == (len(outs), nm, ne), "shape", lambda: "%s" % (np.shape(L),))
        t.same(mps, m0, "argument-changed"); t.same(eps, e0, "argument-changed")
        t.check(len(log) > 0, "no-samples", "")
        N = 0; k = np.zeros((nm, ne)); met = []
        for mp, ep, r, x in log:
            t.same(mp, m0, "simulated-other-models"); t.same(ep, e0, "simulated-other-experiments")
            for row in x:
                N += 1; k = k + row
                if N >= ms and (N - ms) % st == 0: met.append((N, bool(np.all(err(k, N, ah) < tol)), k.copy()))
        t.check(N >= ms, "too-few-samples", lambda: "%d drawn, minimum %d" % (N, ms))
        t.check((N - ms) % st == 0, "sample-steps", lambda: "%d drawn with minimum %d and step %d" % (N, ms, st))
        want = (k + eh) / (N + 2 * eh)
        t.close(L, np.array([want if o == 1 else 1 - want for o in outs]), "estimate", rtol=1e-10, atol=1e-12,
                msg=lambda: "%d samples drawn, hedge %s" % (N, eh))
        t.check(np.all((L >= 0) & (L <= 1)), "not-a-probability", lambda: repr(L))
        t.check(np.all(err(k, N, ah) < tol * (1 + 1e-9)), "stopped-early", lambda: "estimated error %r at %d samples, tolerance %r" % (err(k, N, ah).max(), N, tol))
        t.check(not any(ok for n, ok, _ in met if n < N and np.all(err(_, n, ah) < tol * (1 - 1e-9))), "went-on-needlessly",
                lambda: "drew %d samples although the tolerance was met at %s" % (N, [n for n, ok, _ in met if ok]))
        t.count("samples logged", N * nm * ne); t.count("simulator calls", len(log))
        t.seen((s.name, nm, ne, ms, st, eh, ah, tol, N == ms))


def sec_law(t):
    """Estimates from the minimum sample are counts of independent draws of the true law; adaptive ones are within tolerance on average."""
    rng = t.rng
    s = pick(rng); ms = int(rng.choice([1, 2, 7, 20])); st = int(rng.choice([1, 5, 30])); h = float(rng.choice([0, .509]))
    e = s.eps(rng, 1); x = s.mps(rng, 1); p = min(1, max(0, s.pr(1, x[0], e[0])))
    if rng.rand() < .5:
        m = ale.ALEApproximateModel(s.model, error_tol=.9, min_samp=ms, samp_step=st, est_hedge=h, adapt_hedge=.5)
        t.describe(('law', s.name, ms, st, h, p))
        def law(n):
            L = m.likelihood(np.array([1]), np.repeat(x, n, axis=0), e)[0, :, 0]
            k = np.rint(L * (ms + 2 * h) - h).astype(int)
            if k.min() < 0 or k.max() > ms or np.abs(L - (k + h) / (ms + 2 * h)).max() > 1e-9: return 0., "an estimate is no ratio of counts of %d samples: %s" % (ms, L[:5])
            if p * (1 - p) < 1e-12: return float(np.all(k == round(ms * p))), "sure outcome"
            # each estimate must be a binomial count
            from .c15 import chisq
            return chisq(np.bincount(k, minlength=ms + 1), stats.binom(ms, p).pmf(np.arange(ms + 1))), "counts of ones among %d samples with probability %r" % (ms, p)
        t.stat("law", law, 300)
        t.seen(('law', s.name, ms, st, h))
    else:
        tol = float(rng.choice([.03, .05, .1]))
        m = ale.ALEApproximateModel(s.model, error_tol=tol, min_samp=ms, samp_step=max(st, 5), est_hedge=h, adapt_hedge=.509)
        t.describe(('accuracy', s.name, tol, ms, st, h, p))
        n = 40
        L = np.array([m.likelihood(np.array([1]), x, e)[0, 0, 0] for _ in range(n)])
        # each estimate has standard error about tol; 12 sd of the average, and the bias of hedging and of stopping (order of the tolerance)
        t.check(abs(L.mean() - p) < 12 * tol / math.sqrt(n) + 2 * tol, "inaccurate", lambda: "mean estimate %r of %r at tolerance %r" % (L.mean(), p, tol))
        t.seen(('accuracy', s.name, ms, st, tol))


def sec_rest(t):
    """Everything else belongs to the simulator; bad settings are refused."""
    rng = t.rng
    s = pick(rng); m = ale.ALEApproximateModel(s.model, error_tol=.2)
    t.describe(('rest', s.name))
    n, ne = int(rng.randint(1, 6)), int(rng.randint(1, 4)); mps = s.mps(rng, n); eps = s.eps(rng, ne); r = int(rng.choice([1, 2, 9]))
    sd = int(rng.randint(2 ** 31))
    np.random.seed(sd); a = s.model.simulate_experiment(mps, eps, repeat=r)
    np.random.seed(sd); b = m.simulate_experiment(mps, eps, repeat=r)
    t.same(b, a, "simulation")
    c = s.model.sim_count; m.likelihood(np.array([0]), mps, eps)
    t.check(m.sim_count == s.model.sim_count > c, "sim_count", lambda: "%s %s" % (m.sim_count, s.model.sim_count))
    t.check(m.n_outcomes(eps) == 2 and m.is_n_outcomes_constant and m.n_modelparams == s.model.n_modelparams and m.expparams_dtype == s.model.expparams_dtype
            and list(m.modelparam_names) == list(s.model.modelparam_names) and m.underlying_model is s.model, "passthrough", "")
    bad = mps + rng.choice([0, 5.], size=mps.shape)
    t.same(m.are_models_valid(bad), s.model.are_models_valid(bad), "validity")
    t.check([list(d.values) for d in m.domain(eps)] == [[0, 1]] * ne, "domain", "")
    # a posterior computed with estimates stays a distribution
    u = qi.SMCUpdater(m, 30, s.prior())
    for e in s.eps(rng, 3):
        ev = np.array([e], dtype=m.expparams_dtype)
        u.update(np.array(rng.randint(2)), ev)
        t.close(u.particle_weights.sum(), 1., "weights", atol=1e-9)
    for kw, exc in [(dict(error_tol=0), ValueError), (dict(error_tol=-1), ValueError), (dict(error_tol=1.5), ValueError), (dict(min_samp=0), ValueError),
                    (dict(samp_step=0), ValueError), (dict(est_hedge=-.1), ValueError), (dict(adapt_hedge=-1), ValueError)]:
        try: ale.ALEApproximateModel(s.model, **kw)
        except exc: pass
        else: t.fail("bad-setting-accepted", repr(kw))
    try: ale.ALEApproximateModel(gen.s_ndie(np.random.RandomState(3)).model if False else qi.NDieModel(3))
    except ValueError: pass
    else: t.fail("three-outcomes-accepted", "")
    try: ale.ALEApproximateModel(object())
    except TypeError: pass
    else: t.fail("non-simulator-accepted", "")
    t.seen(('rest', s.name, n > 1, ne, r))


SECTIONS = [Section("estimate", sec_estimate, 160), Section("law", sec_law, 60), Section("rest", sec_rest, 40)]
