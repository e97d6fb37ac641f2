"""C15: elementary distributions sample exactly the law they name.

Monitor: every sample call's shape, support and law.  Reference CDFs/PMFs are
written from the documented densities with special functions, never through the
frozen scipy distribution the library itself uses.
"""
import math, pickle, copy
import numpy as np
import scipy.special as sp
from scipy import stats, integrate
import qinfer as qi
from .core import Section, Skip

RULE = ("an observation is one sample array (or one three-stage law test on a fresh sample); distinct means a "
        "different (distribution, parameter regime, statistic) combination")
ASSUMPTIONS = [
    "LogNormalDistribution(mu, sigma) is judged as location/scale of the standard log-normal, which its own documentation "
    "(location parameter, scale parameter) and the existing tests pin",
    "laws are judged statistically: three independent stages at 1e-2, 1e-6 and 1e-6",
    "UniformDistribution.grad_log_pdf of a single sample is documented in the code as not a gradient and is not judged",
]


# ------------------------------------------------------------ reference laws
def Phi(z): return sp.ndtr(z)


def slanted_cdf(a, b, w):
    """X+Y with X~U(a,b), Y~N(0,w^2)."""
    def G(z):            # integral of Phi
        return z * Phi(z) + np.exp(-z * z / 2) / math.sqrt(2 * math.pi)
    if b == a:
        return lambda x: Phi((x - a) / w)
    return lambda x: w / (b - a) * (G((x - a) / w) - G((x - b) / w))


def uni_dists(rng):
    """name, distribution, cdf, (low, high), expected mean, expected var"""
    k = rng.randint(9)
    sc = 10.0 ** rng.uniform(-3, 3); loc = rng.uniform(-5, 5) * sc
    if k == 0:
        a, b = loc, loc + sc
        form = rng.randint(3)
        arg = [np.array([[a, b]]), [a, b], [[a, b]]][form]
        return "uniform/%d" % form, qi.UniformDistribution(arg), lambda x: (x - a) / (b - a), (a, b), (a + b) / 2, (b - a) ** 2 / 12.
    if k == 1:
        return "normal", qi.NormalDistribution(loc, sc ** 2), lambda x: Phi((x - loc) / sc), (-np.inf, np.inf), loc, sc ** 2
    if k == 2:
        lo = loc + sc * rng.uniform(-3, 1); hi = lo + sc * rng.uniform(0.05, 3)
        if rng.rand() < .2: hi = np.inf
        if rng.rand() < .3: lo = loc - sc * rng.uniform(3, 15) if rng.rand() < .7 else -np.inf; hi = max(hi, loc + sc * rng.uniform(-2, 10))   # hardly truncated on one side
        A, B = (lo - loc) / sc, (hi - loc) / sc
        if A > 0:      # use the reflected tail for accuracy
            cdf = lambda x: (Phi(-A) - Phi(-(x - loc) / sc)) / (Phi(-A) - Phi(-B))
        else:
            cdf = lambda x: (Phi((x - loc) / sc) - Phi(A)) / (Phi(B) - Phi(A))
        return "truncnormal", qi.NormalDistribution(loc, sc ** 2, trunc=(lo, hi)), cdf, (lo, hi), None, None
    if k == 3:
        w = sc * 10.0 ** rng.uniform(-2, 1)
        a, b = loc, loc + sc
        return "slanted", qi.SlantedNormalDistribution([[a, b]], weight=w), slanted_cdf(a, b, w), (-np.inf, np.inf), (a + b) / 2, (b - a) ** 2 / 12. + w * w
    if k == 4:
        def cdf(x):
            with np.errstate(divide='ignore'):
                return Phi(np.log(np.maximum((x - loc) / sc, 0)))
        if rng.rand() < .2:
            return "lognormal/default", qi.LogNormalDistribution(), lambda x: Phi(np.log(x)), (0, np.inf), None, None
        return "lognormal", qi.LogNormalDistribution(loc, sc), cdf, (loc, np.inf), None, None
    if k in (5, 6):
        rare = rng.rand() < .3                                     # nearly all the mass at the two ends
        a, b = np.exp(rng.uniform(-4, -1, size=2)) if rare else np.exp(rng.uniform(-1.2, 3, size=2))
        m = a / (a + b); v = a * b / ((a + b) ** 2 * (a + b + 1))
        d = qi.BetaDistribution(alpha=a, beta=b) if k == 5 else qi.BetaDistribution(mean=m, var=v)
        return ("beta/ab", "beta/mv")[k - 5] + rare * "/ends", d, lambda x: sp.betainc(a, b, x), (0, 1), m, v
    a = math.exp(rng.uniform(-4, -1) if rng.rand() < .3 else rng.uniform(-1.2, 3)); b = 10.0 ** rng.uniform(-6, 5)
    d = qi.GammaDistribution(alpha=a, beta=b) if k == 7 else qi.GammaDistribution(mean=a / b, var=a / b ** 2)
    return ("gamma/ab", "gamma/mv")[k - 7], d, lambda x: sp.gammainc(a, b * x), (0, np.inf), a / b, a / b ** 2


def ks(x, cdf):
    return stats.kstest(np.ravel(x), cdf)[1]


def ks_ends(x, cdf):
    """For laws whose samples round to an end point: cells of the law instead of its continuous form."""
    e = np.array([1e-9, 1e-3, .02, .2, .5, .8, .98, .999])
    return chisq(np.histogram(x, np.concatenate([[-1], e, [2]]))[0], np.diff(np.concatenate([[0], cdf(e), [1]])))


def mean_z(x, mean, what=""):
    x = np.asarray(x, float)
    s = x.std() / math.sqrt(len(x))
    z = (x.mean() - mean) / s if s > 0 else (0. if abs(x.mean() - mean) < 1e-12 else np.inf)
    return 2 * stats.norm.sf(abs(z))


def lag_p(x):
    """Spearman of successive samples."""
    return stats.spearmanr(x[:-1], x[1:])[1]


def shape_ok(t, d, n, rv, mech):
    s = d.sample(n) if n is not None else d.sample()
    t.check(isinstance(s, np.ndarray), mech, lambda: "sample is %r" % type(s))
    t.check(s.shape == (1 if n is None else n, rv), mech, lambda: "sample(%r) shape %s, expected %s" % (n, s.shape, (n, rv)))
    t.check(d.n_rvs == rv, mech, lambda: "n_rvs %r, expected %d" % (d.n_rvs, rv))
    t.check(np.all(np.isfinite(s)), mech, "non-finite sample")
    return s


def batch_p(event, q, b, n):
    """Counts of an event of probability q within one call's b samples, over many calls: binomial
    exactly when the samples of one call are independent (catches stratified, antithetic and paired draws)."""
    calls = max(n // b, 1)
    counts = np.array([int(np.sum(event(b))) for _ in range(calls)])
    return chisq(np.bincount(counts, minlength=b + 1), stats.binom.pmf(np.arange(b + 1), b, q))


# -------------------------------------------------------------------- sections
def sec_univariate(t):
    name, d, cdf, (lo, hi), mean, var = uni_dists(t.rng)
    t.describe((name, d.__dict__.get("mean"), d.__dict__.get("var")))
    for n in (None, 1, 2, int(t.rng.randint(3, 200))):
        s = shape_ok(t, d, n, 1, "%s:shape" % name)
        t.seen((name, "n", n if n in (None, 1, 2) else "many"))
    N = 3000
    ends = name.endswith('/ends'); gof = ks_ends if ends else ks
    tol = 1e-9 * (1 + max(abs(v) for v in (lo, hi) if np.isfinite(v)) if np.isfinite(lo) or np.isfinite(hi) else 1)

    def law(n):
        x = d.sample(n)
        t.check(x.shape == (n, 1), "shape", lambda: str(x.shape))
        t.check(x.min() >= lo - tol and x.max() <= hi + tol, "support", lambda: "%s sample outside [%r,%r]: %r %r" % (name, lo, hi, x.min(), x.max()))
        return gof(x[:, 0], lambda v: np.clip(cdf(v), 0, 1)), "KS of %s" % name
    t.stat("law", law, N)
    t.seen((name, "law"))
    t.stat("successive-samples", lambda n: (lag_p(d.sample(n)[:, 0]), "lag-1 rank correlation of %s" % name), N)
    t.stat("successive-calls", lambda n: (stats.spearmanr(d.sample(n)[:, 0], d.sample(n)[:, 0])[1], "rank correlation between calls of %s" % name), N // 2)
    # single draws follow the law just as batches do
    t.stat("law-one-by-one", lambda n: (gof(np.array([d.sample()[0, 0] for _ in range(n)]), lambda v: np.clip(cdf(v), 0, 1)), "KS of %s one by one" % name), 200, growth=3)
    b, q = int(t.rng.choice([2, 3, 6, 17])), float(t.rng.choice([.5, .5, .25, .8]))
    if ends: q = float(cdf(.5))
    t.stat("calls-dispersion", lambda n: (batch_p(lambda b: (d.sample(b)[:, 0] < .5) if ends else cdf(d.sample(b)[:, 0]) < q, q, b, n), "%s: events per call of %d samples" % (name, b)), N)
    t.seen((name, "independence"))
    if mean is not None and hasattr(d, "mean") and hasattr(d, "var"):
        t.close(float(d.mean), mean, "reported-mean", rtol=1e-7)
        t.close(float(d.var), var, "reported-var", rtol=1e-7)
    if name[-2:] == 'mv' or name.endswith('mv/ends'):          # the shape parameters are what the moments say
        q = var / mean if 'gamma' in name else mean * (1 - mean) / var - 1
        want = (mean ** 2 / var, mean / var) if 'gamma' in name else (mean * q, (1 - mean) * q)
        t.close(float(d.alpha), want[0], "reported-alpha", rtol=1e-5); t.close(float(d.beta), want[1], "reported-beta", rtol=1e-5)


def bb_pmf(n, a, b):
    k = np.arange(n + 1)
    return np.exp(sp.gammaln(n + 1) - sp.gammaln(k + 1) - sp.gammaln(n - k + 1) + sp.betaln(k + a, n - k + b) - sp.betaln(a, b))


def chisq(counts, probs):
    """chi-square with small cells merged."""
    n = counts.sum(); order = np.argsort(probs)
    c = counts[order].astype(float); e = probs[order] * n
    cc, ee = [], []; ac = ae = 0.
    for x, y in zip(c, e):
        ac += x; ae += y
        if ae >= 8:
            cc.append(ac); ee.append(ae); ac = ae = 0.
    if ae > 0 or ac > 0:
        if ee: cc[-1] += ac; ee[-1] += ae
        else: cc.append(ac); ee.append(ae)
    if len(ee) < 2:
        return 1.0
    ee = np.array(ee) * n / np.sum(ee)
    return stats.chisquare(cc, ee)[1]


def sec_discrete(t):
    rng = t.rng
    if rng.rand() < .4:
        bits = int(rng.choice([0, 1, 2, 3, 5, 8, 20, 40]))
        d = qi.DiscreteUniformDistribution(bits); K = 2 ** bits
        pm = np.ones(K) / K if K <= 256 else None
        name = "discreteuniform"; hi = K - 1
    else:
        n = int(rng.choice([1, 2, 3, 7, 20, 60])); a, b = np.exp(rng.uniform(-1, 2.5, size=2))
        if rng.rand() < .15:                                      # many trials, a sharp probability: binomial noise matters
            n = int(10 ** rng.uniform(3, 5.3)); a, b = n * np.exp(rng.uniform(0, 4)) * np.array([1, np.exp(rng.uniform(-1, 1))])
        m = n * a / (a + b); v = n * a * b * (a + b + n) / ((a + b) ** 2 * (a + b + 1))
        # for n == 1 the mean determines the variance, so (mean, var) is not a parameterisation
        mv = 1 < n < 100 and rng.rand() < .5
        d = qi.BetaBinomialDistribution(n, mean=m, var=v) if mv else qi.BetaBinomialDistribution(n, alpha=a, beta=b)
        pm = bb_pmf(n, a, b); name = "betabinomial/" + ("mv" if mv else "ab"); hi = n
        t.close(float(d.mean), m, "reported-mean", rtol=1e-7); t.close(float(d.var), v, "reported-var", rtol=1e-7)
        t.close(float(d.alpha), a, "reported-alpha", rtol=1e-5); t.close(float(d.beta), b, "reported-beta", rtol=1e-5)
    t.describe((name, hi))
    for n_ in (None, 1, 2, int(rng.randint(3, 100))):
        shape_ok(t, d, n_, 1, name + ":shape"); t.seen((name, "n", n_ if n_ in (None, 1, 2) else "many"))

    def law(n):
        x = d.sample(n)[:, 0]
        t.check(np.all(x == np.round(x)) and x.min() >= 0 and x.max() <= hi, "support", lambda: "%s outside 0..%d: %r..%r" % (name, hi, x.min(), x.max()))
        if pm is not None:
            return chisq(np.bincount(x.astype(int), minlength=len(pm)), pm), name
        return ks((x + .5) / (hi + 1.), lambda v: np.clip(v, 0, 1)), name
    t.stat("law", law, 4000)
    t.seen((name, "law"))
    if hi > 0:
        t.stat("successive-samples", lambda n: (lag_p(d.sample(n)[:, 0]), name), 3000)
        b = int(rng.choice([2, 3, 6, 17])); cut = hi // 2; q = (cut + 1.) / (hi + 1.) if pm is None else float(pm[:cut + 1].sum())
        t.stat("calls-dispersion", lambda n: (batch_p(lambda b: d.sample(b)[:, 0] <= cut, q, b, n), "%s: events per call of %d samples" % (name, b)), 3000)
        if name.startswith("discreteuniform") and hi > 3:
            def low(n):
                x = d.sample(n)[:, 0].astype(np.int64) & 3
                return chisq(np.bincount(x, minlength=4), np.ones(4) / 4), "low bits"
            t.stat("low-bits", low, 3000)
    t.seen((name, "independence"))


def rand_cov(rng, d):
    A = rng.randn(d, d); q, _ = np.linalg.qr(A)
    lo = -3 if rng.rand() < .6 else -7
    return (q * 10.0 ** rng.uniform(lo, 2, size=d)).dot(q.T)


def sec_multivariate(t):
    rng = t.rng
    k = rng.randint(5); d_ = int(rng.randint(1, 6))
    a = rng.randn(d_)
    if k == 0:
        mu = rng.randn(d_) * 3; S = rand_cov(rng, d_)
        S = (S + S.T) / 2
        dist = qi.MultivariateNormalDistribution(mu if rng.rand() < .7 else mu[np.newaxis], S)
        name = "mvn"
        evt = (lambda x: x.dot(a) < a.dot(mu)), .5
        tests = [("projection", lambda x: ks(x.dot(a), lambda v: Phi((v - a.dot(mu)) / math.sqrt(a.dot(S).dot(a))))),
                 ("mahalanobis", lambda x: ks(np.einsum('ni,ij,nj->n', x - mu, np.linalg.inv(S), x - mu), lambda v: sp.gammainc(d_ / 2., v / 2)))]
        for i in range(d_):
            tests.append(("marginal", lambda x, i=i: ks(x[:, i], lambda v: Phi((v - mu[i]) / math.sqrt(S[i, i])))))
        supp = None
    elif k in (1, 2):
        if k == 1:
            al = np.exp(rng.uniform(-1, 2, size=max(d_, 2)))
            small = rng.rand() < .25
            if small: al = np.exp(rng.uniform(-3.5, -1, size=len(al)))           # nearly all the mass at the corners
            elif rng.rand() < .3: al = [int(max(1, round(v))) if rng.rand() < .6 else v for v in al]     # integers among the numbers
            dist = qi.DirichletDistribution(al if rng.rand() < .5 else list(al)); al = np.array(al, float); name = "dirichlet"
            t.close(np.asarray(dist.alpha, float), al, "alpha")
        else:
            small = False; al = np.ones(max(d_, 2)); dist = qi.MVUniformDistribution(len(al)); name = "mvuniform"
            if rng.rand() < .15: al = np.ones(6); dist = qi.MVUniformDistribution()
        d_ = len(al); A0 = al.sum()
        evt = (lambda x: x[:, 0] < .4), float(sp.betainc(al[0], A0 - al[0], .4))
        tests = [("marginal", lambda x, i=i: (ks_ends if small else ks)(x[:, i], lambda v: sp.betainc(al[i], A0 - al[i], np.clip(v, 0, 1)))) for i in range(d_)]
        if d_ > 2 and not small:
            tests.append(("pair", lambda x: ks(x[:, 0] + x[:, 1], lambda v: sp.betainc(al[0] + al[1], A0 - al[0] - al[1], np.clip(v, 0, 1)))))
            tests.append(("ratio", lambda x: ks(x[:, 0] / (x[:, 0] + x[:, 1]), lambda v: sp.betainc(al[0], al[1], np.clip(v, 0, 1)))))
        supp = lambda x: np.all(x >= 0) and np.allclose(x.sum(axis=1), 1)
    else:
        lo = rng.randn(d_) * 10.0 ** rng.uniform(-2, 2, size=d_); de = 10.0 ** rng.uniform(-2, 2, size=d_)
        R = np.c_[lo, lo + de]
        if k == 3:
            dist = qi.UniformDistribution(R if rng.rand() < .5 else R.tolist()); name = "uniform"
            if rng.rand() < .15: dist = qi.UniformDistribution(); R = np.array([[0., 1]]); d_ = 1; lo, de = R[:, 0], R[:, 1] - R[:, 0]
            cdfs = [lambda v, i=i: np.clip((v - lo[i]) / de[i], 0, 1) for i in range(d_)]
            supp = lambda x: np.all(x >= R[:, 0] - 1e-9 * np.abs(R).max()) and np.all(x <= R[:, 1] + 1e-9 * np.abs(R).max())
        else:
            w = 10.0 ** rng.uniform(-2, 1)
            dist = qi.SlantedNormalDistribution(R if rng.rand() < .5 else R.tolist(), weight=w); name = "slanted"
            if rng.rand() < .15: dist = qi.SlantedNormalDistribution(); R = np.array([[0., 1]]); d_ = 1; lo, de = R[:, 0], R[:, 1] - R[:, 0]; w = .01
            if rng.rand() < .15:              # one range, given bare
                dist = qi.SlantedNormalDistribution(R[0] if rng.rand() < .5 else R[0].tolist(), weight=w); d_ = 1; R = R[:1]; lo, de = lo[:1], de[:1]
            cdfs = [slanted_cdf(lo[i], lo[i] + de[i], w) for i in range(d_)]
            supp = None
        ie = int(rng.randint(d_)); evt = (lambda x: cdfs[ie](x[:, ie]) < .5), .5
        tests = [("marginal", lambda x, i=i: ks(x[:, i], cdfs[i])) for i in range(d_)]
        for i in range(d_):
            for j in range(i):
                tests.append(("components-independent", lambda x, i=i, j=j: stats.spearmanr(x[:, i], x[:, j])[1]))
    t.describe((name, d_))
    for n in (None, 1, 2, int(rng.randint(3, 50))):
        s = shape_ok(t, dist, n, d_, name + ":shape")
        if supp: t.check(supp(s), "support", lambda: "%s sample outside support: %s" % (name, s[:3]))
        t.seen((name, d_, n if n in (None, 1, 2) else "many"))
    for what, p in tests:
        def st(n):
            x = dist.sample(n)
            if supp: t.check(supp(x), "support", name)
            return p(x), "%s %s" % (name, what)
        t.stat("law:" + what, st, 2500)
        t.seen((name, d_, what))
    t.stat("successive-samples", lambda n: (lag_p(dist.sample(n)[:, rng.randint(d_)]), name), 2500)
    b = int(rng.choice([2, 3, 6, 17]))
    t.stat("calls-dispersion", lambda n: (batch_p(lambda b: evt[0](dist.sample(b)), evt[1], b, n), "%s: events per call of %d samples" % (name, b)), 2500)


def sec_quantum(t):
    rng = t.rng
    which = rng.randint(4)
    u = rng.randn(3); u /= np.linalg.norm(u)
    if which == 0:
        dist, kk, name, D = qi.HaarUniform(), 1, "haar", 2
    elif which == 1:
        kk = int(rng.randint(1, 6)); dist, name, D = qi.GinibreUniform(2, kk) if rng.rand() < .6 else qi.GinibreUniform(k=kk), "ginibre", 2
    else:
        D = 2 if which == 2 else 4
        dist, kk, name = (qi.HilbertSchmidtUniform(D), D, "hilbertschmidt")
    t.describe((name, D, kk))
    rv = D * D - 1
    for n in (None, 1, 2, 7):
        shape_ok(t, dist, n, rv, name + ":shape"); t.seen((name, D, kk, n))
    if D == 2:
        def st_dir(n):
            x = dist.sample(n); r = np.sqrt((x ** 2).sum(1))
            t.check(np.all(r <= 1 + 1e-9), "unphysical", lambda: "Bloch vector of length %r" % r.max())
            return ks(x.dot(u) / r, lambda v: np.clip((v + 1) / 2, 0, 1)), name + " direction"

        def st_rad(n):
            x = dist.sample(n); r2 = (x ** 2).sum(1)
            if kk == 1:
                t.check(np.allclose(r2, 1), "not-pure", lambda: "purity %r" % r2.min())
                return 1.0, ""
            return ks(r2, lambda v: sp.betainc(1.5, kk - 1., np.clip(v, 0, 1))), name + " radius"
        for i in range(3):
            t.stat("direction", lambda n, i=i: (ks((lambda x: x[:, i] / np.sqrt((x ** 2).sum(1)))(dist.sample(n)), lambda v: np.clip((v + 1) / 2, 0, 1)), name + " axis %d" % i), 600)
        t.stat("direction", st_dir, 600); t.stat("radius", st_rad, 600)
        t.stat("successive-samples", lambda n: (lag_p(dist.sample(n)[:, 0]), name), 600)
        t.stat("calls-dispersion", lambda n: (batch_p(lambda b: dist.sample(b).dot(u) < 0, .5, int(rng.choice([2, 4])), n), name + ": events per call"), 400)
    else:
        def st(n):
            x = dist.sample(n); pur = (1 + (x ** 2).sum(1)) / D
            t.check(np.all(pur <= 1 + 1e-9), "unphysical", "purity > 1")
            return mean_z(pur, (D + kk) / (D * kk + 1.)), name + " purity"
        t.stat("purity", st, 500)
        t.stat("mean", lambda n: (stats.combine_pvalues([max(mean_z(c, 0), 1e-300) for c in dist.sample(n).T])[1], name), 500)
        t.stat("equal-variances", lambda n: (stats.levene(*[c for c in dist.sample(n).T])[1], name), 400)
    t.seen((name, D, kk, "law"))


def sec_constant(t):
    rng = t.rng
    v = rng.randn(int(rng.randint(1, 6)))
    form = rng.randint(3)
    d = qi.ConstantDistribution([v, list(v), tuple(v)][form])
    keep = v.copy()
    for n in (None, 1, 2, 5):
        s = shape_ok(t, d, n, len(v), "constant:shape")
        t.check(np.array_equal(s, np.tile(keep, (1 if n is None else n, 1))), "constant-value", lambda: "%s" % s)
        s[:] = 77.                       # scribbling over a result must not change later ones
        t.seen(("constant", len(v), n, form))
    d0 = qi.ConstantDistribution(v); v[0] += 1
    t.check(d0.sample(1)[0, 0] == keep[0], "constant-alias", "changing the caller's array changed the constant")
    # argument validation documented by the classes
    for cls, args in ((qi.BetaDistribution, {}), (qi.GammaDistribution, {}), (qi.BetaBinomialDistribution, dict(n=3))):
        for extra in ({}, dict(alpha=1.), dict(mean=.5), dict(alpha=1., mean=.5), dict(beta=1., var=.1)):
            try:
                cls(**dict(args, **extra))
            except ValueError:
                t.seen(("ValueError", cls.__name__, tuple(sorted(extra))))
            else:
                t.fail("missing-parameters-accepted", "%s(%s) did not raise ValueError" % (cls.__name__, extra))
    try:
        qi.DirichletDistribution(np.ones((2, 2)))
    except ValueError:
        pass
    else:
        t.fail("dirichlet-2d-accepted", "2-D concentration accepted")


def sec_gradient(t):
    rng = t.rng
    k = rng.randint(4)
    n = int(rng.randint(1, 7))
    if k == 0:
        m, v = rng.randn() * 3, 10.0 ** rng.uniform(-3, 3)
        trunc = None if rng.rand() < .6 else (m - 3 * math.sqrt(v), m + 3 * math.sqrt(v))
        d = qi.NormalDistribution(m, v, trunc=trunc); lp = lambda x: -.5 * (x[0] - m) ** 2 / v
        x = m + math.sqrt(v) * rng.uniform(-2.5, 2.5, size=(n, 1)); scale = math.sqrt(v) * np.ones(1); name = "normal"
    elif k == 1:
        D = int(rng.randint(1, 5)); S = rand_cov(rng, D); S = (S + S.T) / 2; m = rng.randn(D)
        d = qi.MultivariateNormalDistribution(m, S); P = np.linalg.inv(S)
        lp = lambda x: -.5 * (x - m).dot(P).dot(x - m)
        x = m + rng.randn(n, D).dot(np.linalg.cholesky(S).T); scale = 1 / np.sqrt(np.diag(P)); name = "mvn"
        mod = None
    elif k == 2:
        D = int(rng.randint(1, 5)); R = np.c_[np.zeros(D), 10.0 ** rng.uniform(-1, 1, size=D)]
        d = qi.UniformDistribution(R); n = max(n, 2); lp = lambda x: 0.
        x = d.sample(n); scale = R[:, 1]; name = "uniform"
    else:
        m, v = rng.uniform(.2, .8), 10.0 ** rng.uniform(-3, 0)
        d = qi.PostselectedDistribution(qi.NormalDistribution(m, v), qi.SimplePrecessionModel())
        lp = lambda x: -.5 * (x[0] - m) ** 2 / v
        x = np.abs(m + math.sqrt(v) * rng.uniform(-2, 2, size=(n, 1))) + 1e-3; scale = math.sqrt(v) * np.ones(1); name = "postselected"
    before = x.copy()
    g = np.asarray(d.grad_log_pdf(x))
    t.check(g.shape == x.shape, "gradient-shape", lambda: "%s of %s" % (g.shape, x.shape))
    for i in range(n):
        for j in range(x.shape[1]):
            h = 1e-3 * scale[j]; e = np.zeros(x.shape[1]); e[j] = h
            num = (lp(x[i] + e) - lp(x[i] - e)) / (2 * h)       # exact for quadratics
            t.check(abs(g[i, j] - num) <= 1e-5 * (abs(num) + 1 / scale[j]), "gradient",
                    lambda: "%s gradient %r, expected %r at %s" % (name, g[i, j], num, x[i]))
    t.same(x, before, "gradient-mutates-argument")
    t.seen((name, n, x.shape[1]), n)


SECTIONS = [
    Section("univariate", sec_univariate, 110),
    Section("discrete", sec_discrete, 50),
    Section("multivariate", sec_multivariate, 60),
    Section("quantum", sec_quantum, 24),
    Section("constant", sec_constant, 10),
    Section("gradient", sec_gradient, 60),
]
