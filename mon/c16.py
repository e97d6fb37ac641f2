"""C16: combined and conditioned distributions are the stated combination.

Monitor: the factor distributions are recording stand-ins (and the library's
own), so every returned row can be traced to the draw it came from; laws of
the combination are checked by staged statistical tests.
"""
import math
import numpy as np
from scipy import stats, integrate
import scipy.special as sp
import qinfer as qi
from qinfer.distributions import Distribution
from .core import Section, Skip
from .c15 import ks, chisq, lag_p, shape_ok, Phi, batch_p
from . import gen

RULE = ("an observation is one sample array traced to its factor draws, or one three-stage law test; distinct means a "
        "different (combination, nesting, boundary regime, sample number class)")
ASSUMPTIONS = ["laws are judged statistically: three independent stages at 1e-2, 1e-6 and 1e-6",
               "factor distributions are independent of each other; models' validity is a function of the parameters"]


class Tag(Distribution):
    """Records every draw; each value is unique so rows can be traced."""
    def __init__(self, ident, d, draw=None):
        self.ident, self.d, self.log = ident, d, []
        self.draw = draw or (lambda n: np.random.random((n, d)))

    @property
    def n_rvs(self): return self.d

    def sample(self, n=1):
        s = self.ident + np.asarray(self.draw(n))
        self.log.append(s.copy())
        return s


def nclass(n): return n if n in (None, 1, 2) else "many"


def sec_product(t):
    rng = t.rng
    K = int(rng.randint(1, 5))
    tags = [Tag(10. * (i + 1), int(rng.randint(1, 4))) for i in range(K)]
    form = rng.randint(4)
    if form == 0: d = qi.ProductDistribution(*tags)
    elif form == 1: d = qi.ProductDistribution(tags)
    elif form == 2: d = qi.ProductDistribution(x for x in tags)
    else:
        cut = rng.randint(0, K)
        d = qi.ProductDistribution(qi.ProductDistribution(*tags[:cut + 1]), *tags[cut + 1:]) if K > 1 else qi.ProductDistribution(qi.ProductDistribution(tags[0]))
    rv = sum(x.d for x in tags)
    t.describe(("product", [x.d for x in tags], form))
    for n in (None, 1, 2, int(rng.randint(3, 60))):
        for x in tags: x.log = []
        s = shape_ok(t, d, n, rv, "product:shape")
        m = 1 if n is None else n
        col = 0
        for x in tags:
            blk = s[:, col:col + x.d]; col += x.d
            drawn = np.concatenate(x.log) if x.log else np.zeros((0, x.d))
            t.check(len(drawn) >= m, "product-draws", "factor gave %d draws for %d samples" % (len(drawn), m))
            t.check(np.array_equal(blk, drawn[:m]) or all(any(np.array_equal(r, q) for q in drawn) for r in blk), "product-columns",
                    lambda: "columns of factor %g hold %s, it drew %s" % (x.ident, blk[:2], drawn[:2]))
        t.seen(("product", K, form, nclass(n)))
    # independence of the blocks and laws, also when one distribution object is used twice
    u = qi.UniformDistribution([[0, 1]]) if rng.rand() < .5 else qi.BetaDistribution(alpha=1., beta=1.)
    p = qi.ProductDistribution(u, qi.NormalDistribution(0, 1), u)
    t.stat("product-law", lambda n: (ks(p.sample(n)[:, rng.choice([0, 2])], lambda v: np.clip(v, 0, 1)), "uniform factor"), 1500)
    t.stat("product-law", lambda n: (ks(p.sample(n)[:, 1], Phi), "normal factor"), 1500)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        t.stat("product-independence", lambda n: ((lambda x: stats.spearmanr(x[:, i], x[:, j])[1])(p.sample(n)), "factors %d,%d" % (i, j)), 1500)


def dirichlet_w(rng, K):
    w = rng.dirichlet(np.ones(K) * rng.choice([.3, 1, 5]))
    if K > 1 and rng.rand() < .3:
        w[rng.randint(K)] = 0; w = w / w.sum()
    return w


def sec_mixture(t):
    rng = t.rng
    K = int(rng.randint(1, 6)); D = int(rng.randint(1, 4)); w = dirichlet_w(rng, K)
    shuffle = rng.rand() < .6
    tags = [Tag(10. * (i + 1), D) for i in range(K)]
    kw = {} if shuffle and rng.rand() < .5 else dict(shuffle=shuffle)
    d = qi.MixtureDistribution(w if rng.rand() < .5 else list(w), tags if rng.rand() < .7 else tuple(tags), **kw)
    t.describe(("mixture", w, D, shuffle))
    t.check(d.n_dist == K, "n_dist", lambda: "%r != %d" % (d.n_dist, K))
    for n in (None, 1, 2, int(rng.randint(3, 200))):
        for x in tags: x.log = []
        s = shape_ok(t, d, n, D, "mixture:shape"); m = len(s)
        drawn = np.concatenate([q for x in tags for q in x.log])
        comp = np.floor(s[:, 0] / 10.).astype(int) - 1
        t.check(np.all((comp >= 0) & (comp < K)) and np.all(w[comp] > 0), "mixture-component", lambda: "components %s with weights %s" % (comp, w))
        rows = set(map(bytes, drawn)); got = [bytes(r) for r in np.ascontiguousarray(s)]
        t.check(all(r in rows for r in got), "mixture-rows", "a sample was drawn by no component")
        t.check(len(set(got)) == len(got), "mixture-duplicates", "one draw returned twice")
        if not shuffle:
            t.check(np.all(np.diff(comp) >= 0), "mixture-order", lambda: "unshuffled components out of order: %s" % comp)
        t.seen(("mixture", K, D, shuffle, nclass(n)))

    def law(n):
        s = d.sample(n); comp = np.floor(s[:, 0] / 10.).astype(int) - 1
        return chisq(np.bincount(comp, minlength=K), w) if K > 1 else 1.0, "component frequencies %s" % w
    t.stat("mixture-weights", law, 3000)
    t.stat("mixture-weights-single", lambda n: (chisq(np.bincount([int(d.sample(1)[0, 0] // 10) - 1 for _ in range(n)], minlength=K), w) if K > 1 else 1., "single draws"), 250)
    if K > 1:
        k0 = int(rng.randint(K)); b = int(rng.choice([2, 3, 8, 25]))
        t.stat("mixture-calls-dispersion", lambda n: (batch_p(lambda b: d.sample(b)[:, 0] // 10 == k0 + 1, w[k0], b, n), "component %d per call of %d" % (k0, b)), 3000)
    if shuffle and K > 1:
        # order independent of component: lag and position-rank correlation
        def ordr(n):
            s = d.sample(n); comp = np.floor(s[:, 0] / 10.)
            if len(set(comp)) < 2: return 1.0, ""
            return stats.spearmanr(comp, np.arange(n))[1], "position vs component"
        t.stat("mixture-shuffle", ordr, 1000)
        def lag(n):
            comp = np.floor(d.sample(n)[:, 0] / 10.)
            return (1.0 if len(set(comp)) < 2 else lag_p(comp)), "lag"
        t.stat("mixture-shuffle-lag", lag, 1000)


def sec_mixture_class(t):
    rng = t.rng
    K = int(rng.randint(1, 5)); w = dirichlet_w(rng, K)
    form = rng.randint(4)
    mu = np.sort(rng.uniform(-50, 50, size=K)); sd = rng.uniform(.2, 4, size=K)
    if form == 0:
        d = qi.MixtureDistribution(w, qi.NormalDistribution, dist_args=np.c_[mu, sd ** 2])
        cdf = lambda v: sum(w[k] * Phi((v - mu[k]) / sd[k]) for k in range(K)); D = 1
    elif form == 1:
        D = int(rng.randint(1, 4))
        lo = rng.randn(K, D) * 5; hi = lo + rng.uniform(.1, 3, size=(K, D))
        d = qi.MixtureDistribution(w, qi.ConstantDistribution, dist_kw_args=dict(values=lo), dist_args=np.empty((K, 0)))
        cdf = None
    elif form == 2:
        D = 1
        d = qi.MixtureDistribution(w, qi.UniformDistribution)
        cdf = lambda v: np.clip(v, 0, 1)
    else:
        D = int(rng.randint(2, 4)); lo = rng.dirichlet(np.ones(D), size=K)
        d = qi.MixtureDistribution(w, qi.ConstantDistribution, dist_kw_args=dict(values=lo)); cdf = None
    t.describe(("mixture-class", form, w))
    t.check(d.n_dist == K, "n_dist", "")
    for n in (None, 1, 2, int(rng.randint(3, 60))):
        s = shape_ok(t, d, n, D, "mixture-class:shape")
        t.seen(("mixture-class", form, K, nclass(n)))
    if cdf is not None:
        t.stat("mixture-class-law", lambda n: (ks(d.sample(n)[:, 0], cdf), "form %d" % form), 2000)
    else:
        def law(n):
            s = d.sample(n)
            hit = np.abs(s[:, np.newaxis] - lo[np.newaxis]).max(axis=2)
            t.check(np.all(hit.min(axis=1) == 0), "mixture-class-args", "a sample equals no component's constant")
            return (chisq(np.bincount(hit.argmin(axis=1), minlength=K), w) if K > 1 else 1.), "constants"
        t.stat("mixture-class-law", law, 2000)
        if K > 1:
            k0 = int(rng.randint(K)); b = int(rng.choice([2, 3, 8, 25]))
            t.stat("mixture-calls-dispersion", lambda n: (batch_p(lambda b: np.all(d.sample(b) == lo[k0], axis=1), w[k0], b, n), "component %d per call of %d" % (k0, b)), 1500)


class Cond(object):
    """A model stand-in that only knows validity, and logs what it judged."""
    def __init__(self, ok): self.ok, self.calls = ok, []
    def are_models_valid(self, mps):
        self.calls.append(np.array(mps)); return np.array([bool(self.ok(m)) for m in mps])


def sec_postselect(t):
    rng = t.rng
    D = int(rng.randint(1, 4))
    rate = float(rng.choice([.9, .5, .2, .05]))
    ok = lambda m: m[0] % 1 < rate
    tag = Tag(0., D)
    n0 = int(rng.choice([1, 2, 5, 40, 150]))
    maxit = 2000
    model = Cond(ok)
    d = qi.PostselectedDistribution(tag, model, maxiters=maxit)
    t.describe(("postselect", D, rate, n0))
    for n in (None, 1, n0):
        tag.log = []
        s = shape_ok(t, d, n, D, "postselect:shape")
        t.check(all(ok(m) for m in s), "postselect-invalid", lambda: "invalid sample returned")
        rows = set(map(bytes, np.concatenate(tag.log)))
        got = [bytes(r) for r in np.ascontiguousarray(s)]
        t.check(all(r in rows for r in got) and len(set(got)) == len(got), "postselect-rows", "samples are not distinct draws of the underlying distribution")
        t.seen(("postselect", D, rate, nclass(n)))
    t.stat("postselect-law", lambda n: (ks(d.sample(n)[:, 0] / rate, lambda v: np.clip(v, 0, 1)), "conditional law"), 600)
    if D > 1:
        t.stat("postselect-law-rest", lambda n: (ks(d.sample(n)[:, 1], lambda v: np.clip(v, 0, 1)), "unconditioned column"), 600)
    # budget: fails loudly, never returns invalid samples
    m = int(rng.choice([1, 2, 3, 6])); fails = int(rng.randint(0, 2 * m + 1))
    state = dict(left=fails)
    bad = rng.randint(n0)

    class Late(object):
        def are_models_valid(self, mps):
            v = np.ones(len(mps), bool)
            if state["left"] > 0:
                v[min(bad, len(mps) - 1)] = False; state["left"] -= 1
            return v
    tag2 = Tag(0., D)
    d2 = qi.PostselectedDistribution(tag2, Late(), maxiters=m)
    try:
        s = d2.sample(n0)
    except RuntimeError:
        t.check(fails >= m, "postselect-gave-up-early", "raised after %d rejections with maxiters=%d" % (fails, m))
        t.seen(("postselect-fail", m, n0))
    else:
        t.check(fails < m, "postselect-silent", "%d rejections, maxiters=%d, yet samples were returned" % (fails, m))
        t.check(s.shape == (n0, D) and np.all(np.isfinite(s)), "postselect-shape", "")
        t.seen(("postselect-late", m, n0, fails))
    # the library's own models and distributions
    pm = qi.PostselectedDistribution(qi.NormalDistribution(.2, 1.), qi.SimplePrecessionModel(min_freq=0))
    Z = 1 - Phi(-.2)
    t.stat("postselect-normal", lambda n: (ks(pm.sample(n)[:, 0], lambda v: np.clip((Phi(v - .2) - Phi(-.2)) / Z, 0, 1)), "positive part of a normal"), 800)


def sec_constrained(t):
    rng = t.rng
    D = int(rng.randint(1, 6)); tot = float(rng.choice([1., 3., -2., .25, 1e3, 0.]))
    off = float(rng.choice([0., -5., .5]))     # -5: all totals negative; .5 positive; 0 with normal: both signs
    if off == 0: draw = lambda n: np.random.randn(n, D)
    else: draw = lambda n: np.random.random((n, D))
    tag = Tag(off, D, draw)
    d = qi.ConstrainedSumDistribution(tag, desired_total=tot) if tot != 1. or rng.rand() < .5 else qi.ConstrainedSumDistribution(tag)
    t.describe(("constrained", D, tot, off))
    t.check(d.underlying_distribution is tag, "underlying", "")
    for n in (None, 1, 2, int(rng.randint(3, 80))):
        tag.log = []
        s = shape_ok(t, d, n, D, "constrained:shape")
        u = np.concatenate(tag.log)[:len(s)]
        scale = np.abs(s).sum(axis=1)
        t.check(np.all(np.abs(s.sum(axis=1) - tot) <= 1e-9 * (scale + abs(tot))), "constrained-total", lambda: "sums %s, requested %r" % (s.sum(axis=1)[:4], tot))
        # normalised: each row is proportional to its draw
        t.check(np.all(np.abs(s * u.sum(axis=1)[:, None] - tot * u) <= 1e-9 * (np.abs(u).max(axis=1) * max(abs(tot), 1))[:, None] + 1e-12 * np.abs(s * u.sum(axis=1)[:, None])),
                "constrained-normalisation", lambda: "row is not its draw rescaled: %s from %s" % (s[0], u[0]))
        t.seen(("constrained", D, tot, off, nclass(n)))
    e = qi.ConstrainedSumDistribution(qi.GammaDistribution(alpha=1., beta=2.) if D == 1 else qi.ProductDistribution(*[qi.GammaDistribution(alpha=1.5, beta=2.) for _ in range(D)]), 2.)
    if D > 1:
        t.stat("constrained-law", lambda n: (ks(e.sample(n)[:, rng.randint(D)] / 2, lambda v: sp.betainc(1.5, 1.5 * (D - 1), np.clip(v, 0, 1))), "Dirichlet from gammas"), 1000)


def sec_interpolated(t):
    rng = t.rng
    k = rng.randint(6); c = 10.0 ** rng.uniform(-1, 1.5)      # unnormalised factor
    if k == 5:           # narrow: resolved only by the number of points asked for
        m = rng.uniform(-3, 3); s_ = 12 / 40000. * (1 + np.exp(-m)) ** 2 / np.exp(-m); pdf = lambda x: c * np.exp(-.5 * ((x - m) / s_) ** 2); cdf = lambda x: Phi((x - m) / s_); name = "narrow"
    elif k == 0:
        m, s_ = rng.uniform(-2, 2), rng.uniform(.3, 2); pdf = lambda x: c * np.exp(-.5 * ((x - m) / s_) ** 2); cdf = lambda x: Phi((x - m) / s_); name = "gauss"
    elif k == 1:
        m1, m2, w = -2., 3., rng.uniform(.1, .9)
        pdf = lambda x: c * (w * np.exp(-.5 * (x - m1) ** 2) + (1 - w) * np.exp(-.5 * ((x - m2) / .7) ** 2) / .7)
        cdf = lambda x: w * Phi(x - m1) + (1 - w) * Phi((x - m2) / .7); name = "bimodal"
    elif k == 2:
        a, b = -1.5, 2.5; pdf = lambda x: c * ((x > a) & (x < b)); cdf = lambda x: np.clip((x - a) / (b - a), 0, 1); name = "box"
    elif k == 3:
        r = rng.uniform(.8, 3); pdf = lambda x: c * np.where(x > 0, np.exp(-r * np.maximum(x, 0)), 0.); cdf = lambda x: np.where(x > 0, 1 - np.exp(-r * np.maximum(x, 0)), 0.); name = "exp"
    else:
        pdf = lambda x: c * np.where((x > 0) & (x < 1), x, 0.); cdf = lambda x: np.clip(x, 0, 1) ** 2; name = "ramp"
    npts = int(rng.choice([1500, 4000])); scale = float(rng.choice([.7, 1., 2.]))
    if k == 5: npts, scale = 40000, 1.
    while True:      # the table covers logit-spaced points up to scale * log(npts): the mass beyond must not matter
        top = scale * np.log(npts)
        if float(1 - cdf(top) + cdf(-top)) < 1e-3: break
        scale *= 1.5
    args = {} if npts == 1500 and scale == 1. and rng.rand() < .5 else dict(compactification_scale=scale, n_interp_points=npts)
    d = qi.InterpolatedUnivariateDistribution(pdf, **args)
    t.describe((name, scale, npts, c))
    for n in (None, 1, 2, int(rng.randint(3, 100))):
        shape_ok(t, d, n, 1, "interpolated:shape"); t.seen(("interpolated", name, scale, npts, nclass(n)))
    # a density has no atoms, however coarse the table
    coarse = qi.InterpolatedUnivariateDistribution(pdf, scale, int(rng.choice([40, 150, 600])))
    for dd in (d, coarse) if k != 5 else (d,):
        y = dd.sample(600)[:, 0]; y = y[np.isfinite(y)]
        t.check(len(np.unique(y)) >= .95 * len(y), "interpolated-atoms", lambda: "%s: only %d different values in %d samples" % (name, len(np.unique(y)), len(y)))
    # discretisation error of the density table is below 1e-2 in CDF; the test allows for it

    def law(n):
        x = np.sort(d.sample(n)[:, 0]); F = cdf(x)
        D_ = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
        D_ = max(0., D_ - 1e-2)
        return stats.kstwo.sf(D_, n) if D_ > 0 else 1.0, name
    t.stat("interpolated-law", law, 4000)
    b = int(rng.choice([2, 3, 8, 25])); q = .5
    x0 = np.quantile(d.sample(40000)[:, 0], q)
    t.stat("interpolated-calls-dispersion", lambda n: (batch_p(lambda b: d.sample(b)[:, 0] < x0, q, b, n), "%s: events per call of %d" % (name, b)), 1000)
    t.stat("interpolated-independence", lambda n: (lag_p(d.sample(n)[:, 0]), name), 1500)


def sec_particle(t):
    rng = t.rng
    N = int(rng.randint(1, 12)); D = int(rng.randint(1, 4))
    loc = rng.randn(N, D); w = dirichlet_w(rng, N)
    scale = float(rng.choice([1., 7.3, 1e-3]))
    pd = qi.ParticleDistribution(particle_locations=loc.copy(), particle_weights=w * scale * (-1 if rng.rand() < .1 else 1))
    t.describe(("particle", w, scale))
    t.close(pd.particle_weights, w, "particle-weights", rtol=1e-12)
    t.check(pd.n_particles == N and pd.n_rvs == D, "particle-numbers", "")
    rows = {bytes(r): i for i, r in enumerate(loc)}
    for n in (None, 1, 2, int(rng.randint(3, 200))):
        s = shape_ok(t, pd, n, D, "particle:shape")
        idx = [rows.get(bytes(r), -1) for r in np.ascontiguousarray(s)]
        t.check(min(idx) >= 0, "particle-foreign", "a sample is no particle")
        t.check(np.all(w[idx] > 0), "particle-zero-weight", lambda: "drew a particle of zero weight: %s of %s" % (idx, w))
        t.seen(("particle", N, D, nclass(n)))

    def law(n):
        s = pd.sample(n); idx = np.array([rows[bytes(r)] for r in np.ascontiguousarray(s)])
        return (chisq(np.bincount(idx, minlength=N), w) if N > 1 else 1.), "weights %s" % w
    t.stat("particle-law", law, 3000)
    if N > 1:
        k0 = int(rng.randint(N)); b = int(rng.choice([2, 3, 8, 25]))
        t.stat("particle-calls-dispersion", lambda n: (batch_p(lambda b: np.all(pd.sample(b) == loc[k0], axis=1), w[k0], b, n), "particle %d per call of %d" % (k0, b)), 2500)
    if N > 1 and np.sum(w > .05) > 1:
        def lag(n):
            s = pd.sample(n); idx = np.array([rows[bytes(r)] for r in np.ascontiguousarray(s)])
            return (lag_p(idx) if len(set(idx)) > 1 else 1.0), "lag"
        t.stat("particle-independence", lag, 1500)
    # the same law through an updater, whose weights and locations move with data
    if N > 1:
        spec = gen.any_spec(rng, gen.BASE)
        up = qi.SMCUpdater(spec.model, 25, spec.prior(), resample_thresh=0.)
        for _ in range(int(rng.randint(0, 3))):
            e = spec.eps(rng, 1); mp = spec.mps(rng, 1)
            try:
                up.update(spec.model.simulate_experiment(mp, e), e)
            except RuntimeError:
                raise Skip
        W = np.array(up.particle_weights); L = np.array(up.particle_locations)
        keys = {}
        for i, r in enumerate(L): keys.setdefault(bytes(r), []).append(i)
        lab = np.array([keys[bytes(r)][0] for r in L])
        W2 = np.bincount(lab, weights=W, minlength=len(W)); W2 = W2 / W2.sum()

        def law2(n):
            s = np.ascontiguousarray(up.sample(n))
            t.check(s.shape == (n, L.shape[1]), "updater-sample-shape", lambda: str(s.shape))
            idx = np.array([keys[bytes(r)][0] for r in s])
            return chisq(np.bincount(idx, minlength=len(W2)), W2), "updater sample"
        t.stat("updater-sample-law", law2, 2000)
    z = qi.ParticleDistribution(n_mps=D)
    t.check(np.array_equal(z.sample(3), np.zeros((3, D))), "particle-origin", "")
    try:
        qi.ParticleDistribution(n_mps=D, particle_locations=loc, particle_weights=w)
    except ValueError:
        pass
    else:
        t.fail("particle-overspecified", "both n_mps and particles accepted")


def sec_nested(t):
    """Random nestings: number of variables, sample numbers and supports compose."""
    rng = t.rng

    def build(depth):
        k = rng.randint(6) if depth > 0 else rng.randint(3)
        if k == 0:
            D = int(rng.randint(1, 3)); lo = rng.randn(D)
            return qi.UniformDistribution(np.c_[lo, lo + 1]), D, lambda s: np.all((s >= lo - 1e-12) & (s <= lo + 1 + 1e-12), axis=1)
        if k == 1:
            c = rng.randn(int(rng.randint(1, 3))); return qi.ConstantDistribution(c), len(c), lambda s: np.all(s == c, axis=1)
        if k == 2:
            D = int(rng.randint(2, 4)); return qi.DirichletDistribution(np.ones(D)), D, lambda s: np.abs(s.sum(1) - 1) < 1e-9
        if k == 3:
            ch = [build(depth - 1) for _ in range(rng.randint(1, 4))]
            cuts = np.cumsum([0] + [c[1] for c in ch])
            return (qi.ProductDistribution(*[c[0] for c in ch]), int(cuts[-1]),
                    lambda s: np.all([c[2](s[:, a:b]) for c, a, b in zip(ch, cuts[:-1], cuts[1:])], axis=0))
        if k == 4:
            a = build(depth - 1); b = build(depth - 1)
            for _ in range(30):
                if a[1] == b[1]: break
                b = build(depth - 1)
            else:
                return a
            return qi.MixtureDistribution([.3, .7], [a[0], b[0]]), a[1], lambda s: a[2](s) | b[2](s)
        a = build(depth - 1)
        return (qi.PostselectedDistribution(a[0], Cond(lambda m: True)), a[1], a[2])
    d, D, supp = build(3)
    t.describe(("nested", type(d).__name__, D))
    for n in (None, 1, 2, int(rng.randint(3, 60))):
        s = shape_ok(t, d, n, D, "nested:shape")
        t.check(np.all(supp(s)), "nested-support", "sample outside the support of the nesting")
        t.seen(("nested", type(d).__name__, D, nclass(n)))


SECTIONS = [
    Section("product", sec_product, 40),
    Section("mixture", sec_mixture, 50),
    Section("mixture-class", sec_mixture_class, 30),
    Section("postselect", sec_postselect, 40),
    Section("constrained", sec_constrained, 40),
    Section("interpolated", sec_interpolated, 24),
    Section("particle", sec_particle, 40),
    Section("nested", sec_nested, 60),
]
