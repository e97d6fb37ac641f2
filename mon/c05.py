"""C05: Liu-West resampling - law of the resampled cloud against the reference kernel mixture."""
import warnings
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer._exceptions import ResamplerWarning, ResamplerError
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one resampling call judged (size, weights, validity, purity) or one sequential KS test of "
        "resampled particles against the exact Liu-West mixture along a direction; distinct = (dimension, a, h mode, weights kind, options)")
ASSUMPTIONS = ["the law of post-selected particles is checked per ancestor: an invalid child is redrawn from its own ancestor's kernel"]


def free_model(d):
    return gen.LabModel(d, 2, np.zeros((d + 1, 6)))


def cloud(t, d=None, n=None):
    d = d or int(t.rng.randint(1, 5)); n = n or int(t.rng.choice([2, 3, 8, 40]))
    kind = t.rng.randint(4)
    if kind == 0: x = t.rng.normal(size=(n, d))
    elif kind == 1: x = t.rng.uniform(-1, 1, (n, d)) * 10. ** t.rng.randint(-4, 4, d)
    elif kind == 2: x = t.rng.normal(size=(n, d)) * .05 + 3 * (t.rng.rand(n, 1) < .5)     # bimodal
    else: x = t.rng.normal(size=(n, 1)) * t.rng.normal(size=(1, d)) + 1e-6 * t.rng.normal(size=(n, d))   # nearly singular
    w = gen.weights(t.rng, n)
    return w, x, kind


def mixture(w, c, s):
    """CDF of sum_j w_j N(c_j, s^2), and the untruncated pieces."""
    def cdf(y):
        y = np.asarray(y, dtype=float)
        return (w[None, :] * st.norm.cdf((y[..., None] - c) / s)).sum(-1)
    return cdf


def ks(t, mech, draw, cdf, n, msg=""):
    def pv(m):
        y = draw(m)
        r = st.kstest(y, cdf)
        return r.pvalue, "KS distance %.4f" % r.statistic
    t.stat(mech, pv, n, msg=msg)


def settings(t):
    a = float(t.rng.choice([0.0, 0.3, 0.7, 0.9, 0.98, 0.9996, 1.0]))
    mode = t.rng.randint(3)
    if mode == 0: rs = qi.LiuWestResampler(a=a); h = np.sqrt(1 - a * a)
    elif mode == 1:
        h = float(t.rng.choice([0.0, .1, .5, 1.2])); rs = qi.LiuWestResampler(a=a, h=h)
    else:
        rs = qi.LiuWestResampler(); rs.a = a; h = np.sqrt(1 - a * a)
    return rs, a, h, mode


def sec_law(t):
    """Projections of the resampled cloud follow the mixture sum w_j N(a x_j + (1-a) mu, h^2 Sigma)."""
    rs, a, h, mode = settings(t)
    w, x, kind = cloud(t)
    if t.rng.rand() < .15:                                     # many parameters, full rank
        d = int(t.rng.randint(5, 14)); n = 3 * d; kind = 4; w = gen.weights(t.rng, n, zero=False)
        x = t.rng.normal(size=(n, d)) + t.rng.choice([0, 1, 3]) * t.rng.normal(size=(n, 1))
    n, d = x.shape
    mu = gen.wmean(w, x); cov = gen.wcov(w, x)
    kw = {}
    pre = t.rng.rand() < .3
    if pre:
        mu = mu + t.rng.normal(size=d) * .1; mu = mu * 0 if t.rng.rand() < .25 else mu; g = t.rng.normal(size=(d, d)); cov = g @ g.T * .1
        kw = dict(precomputed_mean=mu.copy(), precomputed_cov=cov.copy())
        if t.rng.rand() < .3: del kw['precomputed_mean']; mu = gen.wmean(w, x)
    if np.abs(cov).max() == 0 or 'precomputed_cov' not in kw and (np.diag(cov) < 1e-12 * (x ** 2).max(0)).all(): raise Skip()   # below rounding: sec_degenerate
    dist = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    model = free_model(d)
    v = t.rng.normal(size=d) / np.maximum(np.sqrt(np.diag(cov)), 1e-12 + 1e-6 * np.sqrt(np.diag(cov).max()))
    if t.rng.rand() < .5: v = v * (np.arange(d) == t.rng.randint(d))
    c = a * (x @ v) + (1 - a) * (mu @ v)
    s = h * np.sqrt(max(v @ cov @ v, 0))
    scale = np.abs(x @ v).max() + 1
    if d > 1 and s < 30 * h * np.linalg.norm(v) * np.sqrt(3e-16 * np.linalg.eigvalsh(cov).max()) and h > 0: raise Skip()   # rounding of the covariance's root shows along v
    t.describe("a=%s h=%.3f d=%d n=%d kind=%d precomputed=%s" % (a, h, d, n, kind, pre))
    per = int(t.rng.choice([n, 500, 1]))
    def draw(m):
        out = []
        got = 0
        chunk = m if per == 500 else max(per, 20)
        while got < m:
            r = rs(model, dist, n_particles=chunk, **kw)
            loc = np.asarray(r.particle_locations)
            t.check(loc.shape == (chunk, d), "size", "asked for %d particles, got %s" % (chunk, loc.shape))
            out.append(loc @ v); got += chunk
            if chunk <= 50 and len(out) > 200: chunk = m - got if got < m else chunk
        return np.concatenate(out)[:m]
    if s < 1e-6 * scale:
        # deterministic kernel: every particle sits on an ancestor's image; frequencies follow the weights
        y = draw(400)
        near = np.abs(y[:, None] - c[None, :])
        t.check(np.all(near[:, w > 0].min(axis=1) < (1e-10 * scale if h == 0 or a == 1 and mode != 1 else 1e-4 * scale)), "off-kernel", "particle away from every a x + (1-a) mean")
        order = np.sort(c)
        uniq = np.unique(np.round(c / (1e-3 * scale)))
        if len(uniq) == n and np.all(np.diff(order) > 2e-3 * scale):
            def pv(m):
                idx = np.abs(draw(m)[:, None] - c[None, :]).argmin(axis=1)
                f = np.bincount(idx, minlength=n).astype(float)
                if np.any(f[w == 0] > 0): return 0.0, "zero-weight ancestor"
                k = w * m > 1
                obs = np.append(f[k], f[~k].sum()); ex = np.append(w[k], w[~k].sum()) * m
                keep = ex > 0
                if keep.sum() < 2: return 1.0, ""
                return st.chisquare(obs[keep], ex[keep] * obs[keep].sum() / ex[keep].sum()).pvalue, "ancestor counts %s" % f
            t.stat("ancestor-law", pv, 600)
    else:
        # tiny blur so that numerically singular directions do not matter
        ks(t, "kernel-law", lambda m: draw(m) , mixture(w, c, s), 800)
    t.seen((d, a, mode, kind, pre, s > 1e-6 * scale))


def sec_moments(t):
    """With a^2 + h^2 = 1 the mean and the covariance are preserved in expectation (long-run average of many calls)."""
    a = float(t.rng.choice([0.2, 0.6, 0.9, 0.98])); many = t.rng.rand() < .3
    d = int(t.rng.randint(4, 15) if many else t.rng.randint(1, 4)); n = 3 * d if many else int(t.rng.choice([4, 10, 30]))
    x = t.rng.normal(size=(n, d))
    if many and t.rng.rand() < .7: x = x + t.rng.normal(size=(n, 1)) * t.rng.choice([1, 3])      # correlated parameters
    x = x * 10. ** t.rng.randint(-2, 3, d); w = gen.weights(t.rng, n)
    mu = gen.wmean(w, x); cov = gen.wcov(w, x)
    if np.linalg.matrix_rank(cov, tol=1e-10) < d or np.linalg.cond(cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov)))) > 1e6: raise Skip()
    dist = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    rs = qi.LiuWestResampler(a=a); model = free_model(d)
    wh = np.linalg.inv(np.linalg.cholesky(cov))
    u = t.rng.normal(size=d)
    if many: u = np.linalg.solve(wh.T, np.ones(d)) if t.rng.rand() < .5 else u
    u /= np.linalg.norm(u)
    def pv(m):
        z = ((np.asarray(rs(model, dist, n_particles=m).particle_locations) - mu) @ wh.T) @ u
        z1 = z.mean() / (z.std() / np.sqrt(m)); q = z ** 2 - 1
        z2 = q.mean() / (q.std() / np.sqrt(m))
        return float(min(1, 2 * min(2 * st.norm.sf(abs(z1)), 2 * st.norm.sf(abs(z2))))), "mean z=%.1f variance z=%.1f" % (z1, z2)
    # heavy-tailed weights make the variance estimate slow to converge: enough samples for the rarest carried weight
    big = 4000 if w[w > 0].min() * 4000 > 20 else 0
    if not big: raise Skip()
    t.stat("moments", pv, big)
    t.describe("a=%s d=%d n=%d" % (a, d, n)); t.seen((a, d, n))


def sec_post(t):
    """Post-selection: only valid particles; each ancestor's children follow its kernel restricted to the valid box."""
    a = float(t.rng.choice([0.5, 0.9, 0.98])); d = int(t.rng.randint(1, 4)); n = int(t.rng.choice([3, 8, 20]))
    box = 1.0
    x = t.rng.uniform(-1, 1, (n, d)); x[t.rng.rand(n) < .4, 0] = box * t.rng.choice([-1, 1])
    x[:, 1:] *= .2                       # only the first coordinate feels the box
    w = gen.weights(t.rng, n)
    model = gen.LabModel(d, 2, np.zeros((d + 1, 6)), box=box)
    mu = gen.wmean(w, x); cov = gen.wcov(w, x)
    h = np.sqrt(1 - a * a); s = h * np.sqrt(cov[0, 0])
    if s < 1e-3 or (d > 1 and h * np.sqrt(np.diag(cov)[1:].max()) > .12): raise Skip()
    c = a * x[:, 0] + (1 - a) * mu[0]
    lo, hi = st.norm.cdf((-box - c) / s), st.norm.cdf((box - c) / s)
    dist = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    rs = qi.LiuWestResampler(a=a)
    def cdf(y):
        return (w * np.clip((st.norm.cdf((np.asarray(y)[..., None] - c) / s) - lo) / (hi - lo), 0, 1)).sum(-1)
    def draw(m):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = rs(model, dist, n_particles=m)
        y = np.asarray(r.particle_locations)
        bad = ~model.are_models_valid(y)
        t.check(not bad.any() or any(issubclass(q.category, ResamplerWarning) for q in ws), "silent-invalid",
                "%d invalid particles without a warning" % bad.sum())
        return y[:, 0]
    y = draw(1500)
    t.count("invalid-prone calls", int((lo + 1 - hi).max() > .1))
    ks(t, "postselected-law", draw, cdf, 1000)
    t.describe("a=%s d=%d n=%d s=%.3f" % (a, d, n, s)); t.seen((a, d, n, int(10 * (lo + 1 - hi).max())))


def sec_contract(t):
    """Size, uniform weights, purity, determinism of options."""
    w, x, kind = cloud(t)
    n, d = x.shape
    rs, a, h, mode = settings(t)
    kw = dict(a=a)
    if mode == 1: kw['h'] = h
    dflt = t.rng.choice([None, None, 1, 7, 25]); asked = t.rng.choice([None, None, 1, 3, 50])
    canon = bool(t.rng.randint(2)); box = float(t.rng.choice([.5, 5.])) if t.rng.rand() < .5 else None
    model = gen.LabModel(d, 2, np.zeros((d + 1, 6)), box=box, canon=canon)
    post = bool(t.rng.randint(2))
    kern = []
    rng = t.rng
    def kernel(*shape):
        kern.append(shape); return rng.normal(size=shape)
    own = bool(t.rng.randint(2))
    args = dict(kw, postselect=post, default_n_particles=None if dflt is None else int(dflt), maxiter=int(t.rng.choice([1, 20, 200])))
    if own: args['kernel'] = kernel
    rs = qi.LiuWestResampler(**args)
    dist = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    bw, bx = dist.particle_weights.tobytes(), dist.particle_locations.tobytes()
    pm, pc = gen.wmean(w, x), gen.wcov(w, x) + 1e-9 * np.eye(d)
    pb = pm.tobytes(), pc.tobytes()
    pre = {}
    if t.rng.rand() < .3: pre = dict(precomputed_mean=pm, precomputed_cov=pc)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = rs(model, dist, **dict(pre, **({} if asked is None else dict(n_particles=int(asked)))))
    warned = [q for q in ws if issubclass(q.category, ResamplerWarning)]
    want = int(asked) if asked is not None else int(dflt) if dflt is not None else n
    t.check(r.particle_locations.shape == (want, d), "size", "expected %d particles, got %s" % (want, r.particle_locations.shape))
    t.check(r.n_particles == want, "size", "")
    t.close(np.asarray(r.particle_weights), np.ones(want) / want, "uniform-weights", rtol=1e-12)
    t.check(np.all(np.isfinite(r.particle_locations)), "finite", "")
    t.check(dist.particle_weights.tobytes() == bw and dist.particle_locations.tobytes() == bx, "input-modified", "")
    t.check((pm.tobytes(), pc.tobytes()) == pb, "input-modified", "precomputed moments")
    t.check(not np.shares_memory(r.particle_locations, dist.particle_locations), "aliased-result", "")
    if post and box is not None:
        bad = (~model.are_models_valid(r.particle_locations)).sum()
        t.check(bad == 0 or warned, "silent-invalid", "%d invalid particles, no warning" % bad)
        if not bad: t.count("valid clouds")
    if own: t.check(sum(int(np.prod(s)) for s in kern) <= args['maxiter'] * want * d, "maxiter", lambda: "maxiter %d, draws %s for %d particles of dimension %d" % (args['maxiter'], kern, want, d))
    if own: t.check(kern, "kernel-ignored", "the supplied kernel was never called")
    if not post and own: t.check(sum(int(np.prod(s)) for s in kern) == want * d, "kernel-draws", "%s" % kern)
    t.seen((d, a, mode, kind, post, own, asked is None, dflt is None, bool(warned))); t.count("contract calls")


def sec_degenerate(t):
    """Zero covariance, single live particle, everything invalid, no room: valid result or a warning/ResamplerError."""
    d = int(t.rng.randint(1, 5)); n = int(t.rng.choice([1, 2, 10]))
    kind = ['same', 'single', 'invalid', 'partly', 'edge', 'nanmom'][t.rng.randint(6)]
    box = .5
    x0 = t.rng.uniform(-.4, .4, d)
    x = np.tile(x0, (n, 1)); w = np.ones(n) / n
    if kind == 'single':
        x = t.rng.uniform(-.4, .4, (n, d)); w = np.zeros(n); w[t.rng.randint(n)] = 1; x0 = x[w > 0][0]
    elif kind == 'invalid':
        x = t.rng.uniform(5, 6, (n, d))
    elif kind == 'partly':
        x = t.rng.uniform(-.4, .4, (n, d)); x[0] = 9; w = np.ones(n); w = w / n
    elif kind == 'edge':
        x = t.rng.uniform(-.4, .4, (n, d)); w = t.rng.dirichlet(np.ones(n))
    model = gen.LabModel(d, 2, np.zeros((d + 1, 6)), box=box)
    post = kind != 'edge'
    a = float(t.rng.choice([.9, .98])); comp = float(t.rng.choice([1e-10, 1e-8, 1e-14, 1e-20]))
    rs = qi.LiuWestResampler(maxiter=int(t.rng.choice([1, 5, 50])), postselect=post, a=a, **({} if comp == 1e-10 else dict(zero_cov_comp=comp)))
    dist = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    ask = int(t.rng.choice([1, n, 30]))
    pre = {}
    if kind == 'nanmom': pre = dict(precomputed_cov=np.full((d, d), np.nan))
    elif t.rng.rand() < .4: pre = dict(precomputed_mean=gen.wmean(w, x), precomputed_cov=np.zeros((d, d)) if kind in ('same', 'single') else gen.wcov(w, x))
    given = {k: v.tobytes() for k, v in pre.items()}; state = dist.particle_weights.tobytes(), dist.particle_locations.tobytes()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        real = np.random.random
        try:
            if kind == 'edge': np.random.random = lambda size=None: np.full(size, np.nextafter(1.0, 0)) if size is not None else np.nextafter(1., 0)
            r = rs(model, dist, n_particles=ask, **pre)
        except (ResamplerError, ValueError, np.linalg.LinAlgError) as ex:
            t.check(kind == 'nanmom', "raised", "%s: %r" % (kind, ex))
            t.seen((kind, d, n, "raised")); return
        finally:
            np.random.random = real
    t.check({k: v.tobytes() for k, v in pre.items()} == given, "input-modified", "precomputed moments")
    t.check((dist.particle_weights.tobytes(), dist.particle_locations.tobytes()) == state, "input-modified", "cloud")
    warned = [q for q in ws if issubclass(q.category, ResamplerWarning)]
    loc = np.asarray(r.particle_locations)
    t.check(loc.shape == (ask, d), "size", "")
    if kind == 'nanmom':
        t.check(warned, "silent-nan", "non-finite covariance accepted silently"); return
    t.check(np.all(np.isfinite(loc)), "finite", kind)
    bad = ~model.are_models_valid(loc)
    if post: t.check(not bad.any() or warned, "silent-invalid", "%s: %d invalid particles, no warning" % (kind, bad.sum()))
    if kind == 'invalid': t.check(bad.all() == bad.any() and (warned or not bad.any()), "invalid-cloud", "")
    if kind in ('same', 'single'):
        exact = not np.any(pre.get('precomputed_cov', dist.est_covariance_mtx()))          # otherwise rounding left a tiny covariance
        t.check(warned or not exact, "zero-covariance-warning", "no warning for zero covariance")
        t.check(np.abs(loc - x0).max() < 1e-3, "zero-covariance-spread", "moved by %g" % np.abs(loc - x0).max())
        t.check(not exact or len(np.unique(loc[:, 0])) == ask, "zero-covariance-diversity", "duplicated particles")
        if exact:                                           # spread by the covariance the caller asks to be added
            sd = np.sqrt((1 - a * a) * comp); mean = x0 if 'precomputed_mean' not in pre else a * x0 + (1 - a) * pre['precomputed_mean']
            def pv(m):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    z = (np.asarray(rs(model, dist, n_particles=m, **pre).particle_locations) - mean) / sd
                return st.kstest(z.ravel(), 'norm').pvalue, "zero_cov_comp %g" % comp
            t.stat("zero-covariance-law", pv, 200)
    t.seen((kind, d, n, ask, bool(warned)))


def sec_large(t):
    """Clouds of many thousand particles: ancestors follow the weights also where a heavy one dwarfs the others."""
    n = int(t.rng.choice([30000, 70000, 120000])); heavy = float(t.rng.uniform(.5, .98)); k = int(t.rng.choice([0, n // 2, n - 1, t.rng.randint(n)]))
    w = t.rng.uniform(.5, 1.5, n) if t.rng.randint(2) else np.ones(n); w[k] = 0; w *= (1 - heavy) / w.sum(); w[k] = heavy
    x = np.arange(n, dtype=float)[:, None]
    dist = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
    rs = qi.LiuWestResampler(a=1., h=0., postselect=bool(t.rng.randint(2))); model = free_model(1)
    ask = int(t.rng.choice([2 * n, 200000])); edges = np.unique(np.concatenate([np.linspace(0, n, 41).astype(int), [k, min(k + 1, n), n - 1]]))
    edges = edges[edges <= n]
    def pv(m):
        j = np.rint(np.asarray(rs(model, dist, n_particles=m).particle_locations)[:, 0]).astype(int)
        o = np.array([((j >= lo) & (j < hi)).sum() for lo, hi in zip(edges[:-1], edges[1:])], float)
        ex = np.array([w[lo:hi].sum() for lo, hi in zip(edges[:-1], edges[1:])]) * len(j)
        big = ex > 8
        light = j[j != k]; ks = st.kstest(light + t.rng.rand(len(light)), lambda y: np.interp(y, np.arange(n + 1), np.concatenate([[0], np.cumsum(np.where(np.arange(n) == k, 0, w))]) / (1 - heavy))).pvalue
        distinct = len(np.unique(light)); m_ = len(light)
        q = np.where(np.arange(n) == k, 0, w) / (1 - heavy); p0 = (1 - q) ** m_; mean = n - p0.sum(); sd = np.sqrt(max((p0 * (1 - p0)).sum(), 1))
        return float(min(1, 3 * min(st.chisquare(o[big], ex[big] * o[big].sum() / ex[big].sum()).pvalue, ks, 2 * st.norm.sf(abs(distinct - mean) / sd)))), "%d distinct light ancestors, expected %.0f +- %.0f" % (distinct, mean, sd)
    t.stat("ancestor-law-large", pv, ask, growth=2)
    t.describe("n=%d heavy=%.3f at %d" % (n, heavy, k)); t.seen((n, k == 0, k == n - 1)); t.count("ancestors drawn", ask)


def sec_updater(t):
    """Resampling as the updater performs it: valid, canonical, uniform, right size, law of the kernel."""
    canon = bool(t.rng.randint(2)); d = int(t.rng.randint(1, 4))
    box = 1.6
    spec = gen.lab(t.rng, d=d, step=False, canon=canon, box=box, spread=2.)
    n = int(t.rng.choice([30, 80])); a = float(t.rng.choice([.7, .9, .98]))
    how = t.rng.randint(3)
    if how == 0: u = qi.SMCUpdater(spec.model, n, spec.prior(), resample_a=a, resample_thresh=0, canonicalize=canon)
    elif how == 1: u = qi.SMCUpdater(spec.model, n, spec.prior(), resampler=qi.LiuWestResampler(a=a), resample_thresh=0, canonicalize=canon)
    else: u = qi.SMCUpdater(spec.model, n, spec.prior(), resample_thresh=0, canonicalize=canon); a = .98
    for _ in range(t.rng.randint(1, 5)):
        e = spec.eps(t.rng, 1)
        o = t.rng.choice(spec.outs(e[0]))
        if (u.particle_weights * [spec.pr(o, q, e[0]) for q in u.particle_locations]).sum() > 1e-6: u.update(int(o), e)
    for again in range(int(t.rng.choice([1, 2, 4]))):
        w, x = np.array(u.particle_weights), np.array(u.particle_locations)
        mu, cov = gen.wmean(w, x), gen.wcov(w, x); s = np.sqrt((1 - a * a) * np.diag(cov))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); u.resample()
        y = np.asarray(u.particle_locations)
        t.check(y.shape == (n, d), "size", "%s" % (y.shape,))
        t.close(u.particle_weights, np.ones(n) / n, "uniform-weights", rtol=1e-12)
        t.check(np.all(spec.model.are_models_valid(y)), "invalid", "")
        if canon: t.check(np.all(y[:, 0] >= 0), "not-canonical", "resampling number %d" % (again + 1))
        else:
            # every new particle within 8 standard deviations of some ancestor's image, in every coordinate
            c = a * x + (1 - a) * mu
            z = (np.abs(y[:, None, :] - c[None, w > 0, :]) / (s + 1e-5)).max(axis=2).min(axis=1)
            t.check(z.max() < 8, "off-kernel", "particle %.1f standard deviations from every ancestor image" % z.max())
    t.describe("%s n=%d a=%s canonicalize=%s" % (spec.name, n, a, canon)); t.seen((d, n, a, how, canon))


SECTIONS = [Section("law", sec_law, 600), Section("moments", sec_moments, 300), Section("postselection", sec_post, 500),
            Section("contract", sec_contract, 800), Section("degenerate", sec_degenerate, 500), Section("updater", sec_updater, 400), Section("large", sec_large, 12)]
