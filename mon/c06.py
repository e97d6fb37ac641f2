"""C06: estimates read from a weighted particle cloud equal their weighted-sum definitions."""
import math, warnings
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer import clustering, metrics, utils
from mon import gen, live
from mon.core import Section, Skip

RULE = ("one observation = one estimate of one generated cloud compared with a sum written out in plain Python "
        "(math.fsum); distinct = (estimate, cloud shape, weights kind)")
ASSUMPTIONS = ["the kernel-density relative entropy is not judged: its documentation does not fix a formula",
               "covariances are judged up to rounding of the raw second moments (documented ApproximationWarning)"]


def cloud(t, nmax=80, dmin=1, dmax=6):
    d = int(t.rng.randint(dmin, dmax)); n = int(t.rng.choice([1, 2, 3, 10, nmax]))
    kind = int(t.rng.randint(7))
    if kind == 0: x = t.rng.normal(size=(n, d))
    elif kind == 1: x = t.rng.uniform(0, 1, (n, d)) * 10. ** t.rng.randint(-6, 6, d)
    elif kind == 2: x = t.rng.normal(size=(n, d)) + 1000
    elif kind == 3: x = t.rng.randint(-2, 3, (n, d)).astype(float)       # ties
    elif kind == 4: x = np.tile(t.rng.normal(size=d), (n, 1))            # collapsed
    w = gen.weights(t.rng, n)
    if kind == 5:                                                        # light particles far out: their terms dominate
        x = t.rng.normal(size=(n, d)); w = t.rng.dirichlet(np.ones(n))
        k = int(t.rng.randint(0, n)); out = t.rng.permutation(n)[:k]
        w[out] = 10. ** t.rng.uniform(-20, -6, k); w = w / w.sum()
        x[out] = x[out] / np.sqrt(w[out])[:, None] * 10. ** t.rng.uniform(-1, 4, (k, 1))
    if kind == 6:                                                        # one dominant particle, the others all but weightless
        x = t.rng.normal(size=(n, d)); w = 10. ** t.rng.uniform(-25, -15.5, n); w[t.rng.randint(n)] = 1.; w = w / w.sum()
    return x, w, kind


def holder(t, x, w):
    """The cloud as a bare distribution, or as the state of an updater."""
    n, d = x.shape
    if t.rng.rand() < .5:
        scale = float(t.rng.choice([1, 7.5, .01]))                       # constructor normalises
        return qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w * scale), False
    m = gen.LabModel(d, 2, np.zeros((d + 1, 6)), Q=t.rng.uniform(.1, 3, d))
    u = qi.SMCUpdater(m, n, gen.FnPrior(lambda r, k: r.normal(size=(k, d)), d))
    u.particle_locations = x.copy(); u.particle_weights = w.copy()
    return u, True


def sec_moments(t):
    x, w, kind = cloud(t)
    n, d = x.shape
    p, upd = holder(t, x, w)
    t.describe("n=%d d=%d kind=%d updater=%s" % (n, d, kind, upd))
    mu = gen.wmean(w, x)
    cov = np.array([[math.fsum(w[i] * (x[i, a] - mu[a]) * (x[i, b] - mu[b]) for i in range(n)) for b in range(d)] for a in range(d)])
    # rounding of the raw moments: bounded by the sums of the absolute values of their terms
    amu = np.array([math.fsum(w[i] * abs(x[i, a]) for i in range(n)) for a in range(d)])
    tol = 1e-15 * max(n, 4) * (np.array([[math.fsum(w[i] * abs(x[i, a] * x[i, b]) for i in range(n)) for b in range(d)] for a in range(d)])
                               + 2 * np.outer(amu, amu))
    t.close(p.est_mean(), mu, "mean", rtol=1e-9, atol=1e-15 * max(n, 4) * amu.max() + 1e-300)
    got = p.est_covariance_mtx()
    sc = np.abs(x).max(axis=0)
    t.check(got.shape == (d, d), "covariance-shape", "%s" % (got.shape,))
    t.check(np.all(np.abs(got - cov) <= tol + 1e-300), "covariance", lambda: "got %s expected %s" % (got, cov))
    t.check(np.all(np.abs(got - got.T) <= tol + 1e-300), "covariance-symmetric", "")
    ev = np.linalg.eigvalsh((got + got.T) / 2)
    t.check(ev.min() >= -d * tol.max() - 1e-300, "covariance-psd", "eigenvalues %s" % ev)
    sd = np.sqrt(np.diag(cov))
    if n > 1 and np.all(np.diag(cov) > 1e6 * np.diag(tol)):
        t.close(p.est_covariance_mtx(corr=True), cov / np.outer(sd, sd), "correlation", rtol=1e-5, atol=1e-6)
        t.close(p.est_covariance_mtx(), got, "covariance-repeat", rtol=0, atol=0)
    ent = -math.fsum(v * math.log(v) for v in p.particle_weights.tolist() if v > 0)
    t.close(p.est_entropy(), ent, "entropy", rtol=1e-9, atol=1e-15)
    t.close(p.n_ess, 1 / math.fsum(v * v for v in w), "n_ess", rtol=1e-9)
    t.check(p.n_particles == n and p.n_rvs == d, "sizes", "")
    t.close(p.particle_weights, w, "weights-normalised", rtol=1e-12, atol=1e-300)
    t.seen(("moments", n, d, kind, upd), 6)
    # arbitrary function
    k = int(t.rng.randint(1, 4)); A = t.rng.normal(size=(d, k)); cplx = t.rng.rand() < .3
    f = (lambda z: np.exp(1j * (z / (1 + np.abs(z))) @ A)) if cplx else (lambda z: np.cos((z / (1 + np.abs(z))) @ A))
    fx = f(x)
    want = np.array([sum(w[i] * fx[i, c] for i in range(n)) for c in range(k)])
    t.close(p.est_meanfn(f), want, "meanfn", rtol=1e-9, atol=1e-12)
    g = lambda z: f(z)[:, :, None] * np.tanh(z)[:, None, :]               # matrix valued
    gx = g(x)
    t.close(p.est_meanfn(g), np.array([[sum(w[i] * gx[i, c, b] for i in range(n)) for b in range(d)] for c in range(k)]), "meanfn-matrix", rtol=1e-9, atol=1e-12)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.close(utils.particle_meanfn(w, x), mu, "deprecated-mean", rtol=1e-9, atol=1e-15 * max(n, 4) * amu.max() + 1e-300)
        t.close(utils.particle_meanfn(w, x, lambda z: np.abs(z)), gen.wmean(w, np.abs(x)), "deprecated-meanfn", rtol=1e-9, atol=1e-15 * max(n, 4) * amu.max() + 1e-300)
        g2 = utils.particle_covariance_mtx(w, x)
        t.check(np.all(np.abs(g2 - cov) <= tol + 1e-300), "deprecated-covariance", "")
    t.close(qi.ParticleDistribution.particle_mean(w, x), mu, "static-mean", rtol=1e-9, atol=1e-15 * max(n, 4) * amu.max() + 1e-300)
    t.seen(("meanfn", k, cplx), 4)


def sec_distances(t):
    d = int(t.rng.randint(1, 5)); n, m = t.rng.randint(1, 15, 2)
    x, y = t.rng.normal(size=(n, d)), t.rng.normal(size=(m, d))
    Q = t.rng.uniform(.1, 4, d)
    mod = gen.LabModel(d, 2, np.zeros((d + 1, 6)), Q=Q)
    u = qi.SMCUpdater(mod, n, gen.FnPrior(lambda r, k: r.normal(size=(k, d)), d)); u.particle_locations = x
    v = qi.SMCUpdater(mod, m, gen.FnPrior(lambda r, k: r.normal(size=(k, d)), d)); v.particle_locations = y
    def ref(q): return np.array([[math.sqrt(math.fsum(q[k] * (x[i, k] - y[j, k]) ** 2 for k in range(d))) for j in range(m)] for i in range(n)])
    t.close(metrics.rescaled_distance_mtx(u, v), ref(Q), "rescaled-distance", rtol=1e-9)
    t.close(metrics.rescaled_distance_mtx(u, y), ref(Q), "rescaled-distance", rtol=1e-9)
    t.close(metrics.rescaled_distance_mtx(x, y), ref(np.ones(d)), "rescaled-distance-arrays", rtol=1e-9)
    # the divergence to another cloud smooths that cloud with the kernel and the bandwidth it is given
    delta = float(10. ** t.rng.uniform(-4, 1)); calls = []
    def kernel(z): calls.append(np.array(z)); return 1 / (1 + np.abs(z))
    p0, q0 = qi.ParticleDistribution(particle_locations=x, particle_weights=u.particle_weights), qi.ParticleDistribution(particle_locations=y, particle_weights=v.particle_weights)
    a, b, sc = [(u, v, Q), (p0, q0, np.ones(d))][t.rng.randint(2)]
    val = a.est_kl_divergence(b, kernel=kernel, delta=delta)
    seen_ = np.sort(np.concatenate([c.ravel() for c in calls])) if calls else np.zeros(0)
    t.check(len(seen_) == n * m, "divergence-kernel", "kernel saw %d distances of %d" % (len(seen_), n * m))
    t.close(seen_, np.sort(ref(sc).ravel()) / delta, "divergence-bandwidth", rtol=1e-9)
    t.check(np.ndim(val) == 0 and np.isfinite(val), "divergence-value", repr(val))
    big = 10 * ref(sc).max()                                             # wide enough for every logarithm to be finite
    g = lambda z: np.exp(-z ** 2 / 2) / math.sqrt(2 * math.pi)
    t.close(a.est_kl_divergence(b, delta=big), a.est_kl_divergence(b, kernel=g, delta=big), "divergence-default-kernel", rtol=1e-9)
    pn, pm = t.rng.permutation(n), t.rng.permutation(m)
    def mixed(s, order, how):
        return qi.ParticleDistribution(particle_locations=s.particle_locations[order] * np.sqrt(how), particle_weights=s.particle_weights[order])
    t.close(mixed(a, pn, sc).est_kl_divergence(mixed(b, pm, sc), kernel=kernel, delta=delta), val, "divergence-order", rtol=1e-7, atol=1e-9)
    w = t.rng.dirichlet(np.ones(n)) + 1e-6
    pw = float(t.rng.choice([0., .5, 1., 2.])); metric = str(t.rng.choice(['euclidean', 'manhattan']))
    dist = (lambda a, b: math.sqrt(sum((a - b) ** 2))) if metric == 'euclidean' else (lambda a, b: sum(abs(a - b)))
    want = np.array([[dist(x[i], x[j]) / (w[i] * w[j] * n * n) ** pw for j in range(n)] for i in range(n)])
    kw = {} if (pw == .5 and t.rng.rand() < .5) else dict(w_pow=pw)
    t.close(metrics.weighted_pairwise_distances(x, w, metric=metric, **kw), want, "weighted-distance", rtol=1e-7, atol=1e-7 * (want.max() + 1e-9))
    t.describe("d=%d n=%d m=%d metric=%s" % (d, n, m, metric)); t.seen((d, n, m, metric, pw), 4)


def dbscan(M, eps, mins):
    """Reference: core flags, component label of cores."""
    n = len(M); near = M <= eps
    core = near.sum(1) >= mins
    comp = -np.ones(n, int); c = 0
    for i in range(n):
        if core[i] and comp[i] < 0:
            todo = [i]; comp[i] = c
            while todo:
                a = todo.pop()
                for b in np.where(near[a] & core)[0]:
                    if comp[b] < 0: comp[b] = c; todo.append(b)
            c += 1
    return core, comp, near


def sec_clusters(t):
    d = int(t.rng.randint(1, 4)); nb = int(t.rng.randint(1, 4)); n = int(t.rng.choice([8, 20, 60]))
    centers = t.rng.normal(size=(nb, d)) * 5
    x = centers[t.rng.randint(nb, size=n)] + t.rng.normal(size=(n, d)) * t.rng.choice([.05, .3])
    w = gen.weights(t.rng, n, zero=False); w = np.maximum(w, 1e-12); w /= w.sum()
    eps = float(t.rng.choice([.3, .5, 1.])); mins = int(t.rng.choice([2, 5])); weighted = bool(t.rng.randint(2)); pw = float(t.rng.choice([.25, .5]))
    metric = str(t.rng.choice(['euclidean', 'euclidean', 'manhattan']))
    opts = dict(eps=eps, min_particles=mins, weighted=weighted, w_pow=pw, metric=metric)
    kind = t.rng.rand()
    if kind < .2: opts = {}; eps, mins, weighted, metric = .5, 5, False, 'euclidean'
    diff = x[:, None] - x[None]
    M = np.sqrt((diff ** 2).sum(-1)) if metric == 'euclidean' else np.abs(diff).sum(-1)
    if weighted: M = M / (np.outer(w, w) * n ** 2) ** pw
    if np.any(np.abs(M - eps) < 1e-7): raise Skip()
    core, comp, near = dbscan(M, eps, mins)
    parts = list(clustering.particle_clusters(x, w, **opts))
    labels = [int(l) for l, _ in parts]
    masks = np.array([np.asarray(m, dtype=bool) for _, m in parts])
    t.check(len(set(labels)) == len(labels), "cluster-labels", "%s" % labels)
    t.check(masks.shape[1:] == (n,) and np.all(masks.sum(0) == 1), "cluster-partition", "particles in %s clusters" % masks.sum(0))
    lab = np.array(labels)[masks.argmax(0)]
    for l in set(lab) - {clustering.NOISE}:
        cs = set(comp[(lab == l) & core])
        t.check(len(cs) == 1, "cluster-content", "cluster %d mixes or lacks connected components: %s" % (l, cs))
        t.check(np.all(lab[core & (comp == list(cs)[0])] == l), "cluster-content", "component split")
    for i in range(n):
        if not core[i]:
            reach = set(lab[near[i] & core])
            t.check(lab[i] in reach if reach else lab[i] == clustering.NOISE, "cluster-border", "particle %d" % i)
        else: t.check(lab[i] != clustering.NOISE, "cluster-noise", "core particle labelled noise")
    # moments
    p = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    mom = list(p.est_cluster_moments(opts or None))
    t.check([int(m[0]) for m in mom] == labels, "moment-labels", "")
    for (l, wt, mu, cov), mask in zip(mom, masks):
        ww = w[mask]; t.close(wt, ww.sum(), "cluster-weight", rtol=1e-9)
        t.close(mu, gen.wmean(ww / ww.sum(), x[mask]), "cluster-mean", rtol=1e-8, atol=1e-10)
        t.close(cov, gen.wcov(ww / ww.sum(), x[mask]), "cluster-covariance", rtol=1e-6, atol=1e-9)
    wi, be, to = p.est_cluster_covs(opts or None)
    cov = gen.wcov(w, x)
    t.close(to, cov, "total-covariance-law", rtol=1e-6, atol=1e-9)
    t.close(wi + be, cov, "total-covariance-law", rtol=1e-6, atol=1e-9)
    t.close(sum(m[1] * m[2] for m in mom), gen.wmean(w, x), "total-mean-law", rtol=1e-8, atol=1e-10)
    t.close(sum(m[1] * m[3] for m in mom), wi, "within-covariance", rtol=1e-6, atol=1e-9)
    met = p.est_cluster_metric(opts or None)
    t.close(met, np.diag(be) / np.diag(to), "cluster-metric", rtol=1e-6, atol=1e-9)
    t.check(np.all(met >= -1e-8) and np.all(met <= 1 + 1e-8), "cluster-metric-range", "%s" % met)
    t.describe("n=%d d=%d blobs=%d opts=%s -> %d groups" % (n, d, nb, opts, len(labels)))
    t.seen((n, d, len(labels), -1 in labels, weighted, metric), len(labels) * 3); t.count("clusters", len(labels))


def sec_marginal(t):
    x, w, kind = cloud(t)
    n, d = x.shape
    if n < 2 or kind == 4: raise Skip()
    m = gen.LabModel(d, 2, np.zeros((d + 1, 6)))
    u = qi.SMCUpdater(m, n, gen.FnPrior(lambda r, k: r.normal(size=(k, d)), d))
    u.particle_locations = x.copy(); u.particle_weights = w.copy()
    k = int(t.rng.randint(d)); res = int(t.rng.choice([10, 100, 333]))
    y = x[:, k]
    if np.ptp(y) < 1e-9 * (1 + abs(y).max()): raise Skip()
    kw = {}
    if t.rng.rand() < .4: kw['range_min'] = float(y.min() - t.rng.uniform(-.3, .5) * np.ptp(y))
    if t.rng.rand() < .4: kw['range_max'] = float(y.max() + t.rng.uniform(-.3, .5) * np.ptp(y))
    if t.rng.rand() < .3 and y.min() < -.1 * np.ptp(y) and y.max() > .1 * np.ptp(y): kw['range_min' if t.rng.randint(2) else 'range_max'] = t.rng.choice([0., 0])
    if kw.get('range_min', y.min()) >= kw.get('range_max', y.max()): kw.pop('range_max')
    ps, pr = u.posterior_marginal(idx_param=k, res=res, **kw)
    lo, hi = kw.get('range_min', y.min()), kw.get('range_max', y.max())
    t.close(ps, np.linspace(lo, hi, res), "marginal-axis", rtol=1e-9, atol=1e-12 * (abs(lo) + abs(hi)))
    t.check(pr.shape == (res,) and np.all(pr >= -1e-9 * (np.abs(pr).max() + 1)), "marginal-nonnegative", "")
    dx = ps[1] - ps[0]
    cum = np.concatenate([[0], np.cumsum((pr[1:] + pr[:-1]) / 2 * dx)])
    F = lambda z: w[y <= z].sum()
    # the density is a smoothed derivative of the weighted distribution function: its integral may differ
    # from the step function only within one interpolation interval and one grid cell
    order = np.argsort(y, kind='stable'); ys = y[order]
    F0hi = F(ps[0] + dx) + 1e-9
    def nxt(z): j = np.searchsorted(ys, z, side='right'); return ys[min(j, n - 1)]
    def prv(z): j = np.searchsorted(ys, z, side='left') - 1; return ys[max(j, 0)]
    for i in range(0, res, max(1, res // 12)):
        hi_ = F(nxt(nxt(ps[i] + dx))) + 1e-9; lo_ = F(prv(prv(ps[i] - dx))) - F(nxt(nxt(ps[0] + dx))) - w[y <= prv(prv(ps[i] - dx))].min(initial=0) - w.max() - 1e-9
        t.check(lo_ <= cum[i] <= hi_, "marginal-mass", lambda: "mass up to %g is %g, weights allow [%g, %g]" % (ps[i], cum[i], lo_, hi_))
    if n >= 60 and not kw and res >= 100:
        mean = np.sum((ps[1:] + ps[:-1]) / 2 * (pr[1:] + pr[:-1]) / 2) * dx + ps[0] * (1 - cum[-1])
        gap = np.diff(np.sort(y)).max() + 2 * dx + np.ptp(y) * w.max()
        t.check(abs(mean - gen.wmean(w, x)[k]) <= 2 * gap, "marginal-mean", "%g vs %g (allowed %g)" % (mean, gen.wmean(w, x)[k], 2 * gap))
    if not kw:
        sm = float(t.rng.choice([.02, .1])) * np.ptp(y)
        ps2, pr2 = u.posterior_marginal(idx_param=k, res=res, smoothing=sm)
        t.check(abs(pr2.sum() - pr.sum()) * dx < 1e-6 * (1 + pr.sum() * dx), "marginal-smoothing-mass", "%g vs %g" % (pr2.sum() * dx, pr.sum() * dx))
        t.check(pr2.max() <= pr.max() * (1 + 1e-9), "marginal-smoothing", "")
        if res >= 100:          # 'smoothing' is a standard deviation in parameter units
            import scipy.ndimage as nd
            pad = int(np.ceil(4.5 * sm / dx))
            A, B = (nd.gaussian_filter1d(pr, s_ * sm / np.ptp(y), mode='constant', truncate=6.) for s_ in (res - 1, res))
            dif = np.abs(A - B).max() + 1e-3 * pr.max()
            t.check(np.all(np.abs(pr2 - A)[pad:res - pad] <= 2 * dif), "marginal-smoothing-width", lambda: "off by %g of %g" % (np.abs(pr2 - A)[pad:res - pad].max(), pr.max()))
    t.seen(("marginal", n, d, k, res, tuple(sorted(kw))), 3)
    if d >= 2 and kind in (0, 3):
        a, b = t.rng.permutation(d)[:2]; r1, r2 = t.rng.randint(3, 12, 2); s = float(t.rng.choice([.1, .5]))
        if np.ptp(x[:, a]) == 0 or np.ptp(x[:, b]) == 0: raise Skip()
        X, Y, Z = u.posterior_mesh(int(a), int(b), res1=int(r1), res2=int(r2), smoothing=s)
        t.check(X.shape == Y.shape == Z.shape and X.size == r1 * r2, "mesh-shape", "%s %s %s" % (X.shape, Y.shape, Z.shape))
        t.close(np.unique(X), np.linspace(x[:, a].min(), x[:, a].max(), r1), "mesh-axis", rtol=1e-9, atol=1e-12)
        t.close(np.unique(Y), np.linspace(x[:, b].min(), x[:, b].max(), r2), "mesh-axis", rtol=1e-9, atol=1e-12)
        ref = np.array([math.fsum(w[i] * math.exp(-((px - x[i, a]) ** 2 + (py - x[i, b]) ** 2) / (2 * s * s)) / (2 * math.pi * s * s)
                        for i in range(n)) for px, py in zip(X.ravel(), Y.ravel())]).reshape(X.shape)
        t.close(Z, ref, "mesh-density", rtol=1e-7, atol=1e-12)
        t.seen(("mesh", n, int(a), int(b), int(r1), int(r2)))


def sec_sample(t):
    n = int(t.rng.choice([1, 2, 5, 20])); d = int(t.rng.randint(1, 4))
    x = t.rng.normal(size=(n, d)); w = gen.weights(t.rng, n)
    p, upd = holder(t, x, w)
    for k in (1, int(t.rng.randint(2, 9))):
        s = p.sample(k)
        t.check(s.shape == (k, d), "sample-shape", "%s" % (s.shape,))
    t.check(p.sample().shape == (1, d), "sample-shape", "default")
    def pv(m):
        step = int(t.rng.choice([1, 7, m]))
        s = p.sample(m) if step == m else np.concatenate([p.sample(step) for _ in range(m // step)])
        idx = np.abs(s[:, None] - x[None]).sum(-1)
        t.check(np.all(idx.min(1) == 0), "sample-not-particle", "")
        f = np.bincount(idx.argmin(1), minlength=n).astype(float)
        t.check(np.all(f[w == 0] == 0), "sample-zero-weight", "")
        big = w * len(s) > 3
        o = np.append(f[big], f[~big].sum()); e = np.append(w[big], w[~big].sum()) * len(s)
        if e[-1] < 1e-9: o, e = o[:-1], e[:-1]
        if len(o) < 2: return 1.0, ""
        if e[-1] < 3 and f[~big].sum() > 60: return 0.0, "light particles drawn %d times" % f[~big].sum()
        if e[-1] < 3: o, e = o[:-1], e[:-1]
        if len(o) < 2: return 1.0, ""
        return st.chisquare(o, e * o.sum() / e.sum()).pvalue, "counts %s expected %s" % (o, e)
    t.stat("sample-law", pv, 700)
    q = qi.ParticleDistribution(n_mps=d)
    t.check(q.n_particles == 1 and q.n_rvs == d and np.all(q.particle_locations == 0) and np.all(q.particle_weights == 1), "origin", "")
    t.seen(("sample", n, d, upd))


def sec_live(t):
    """Estimates of an updater with a history are those of a bare cloud with the same particles and weights."""
    for u, ev, spec in live.walk(t):
        p = live.bare(u); d = u.n_rvs; sc = np.abs(p.particle_locations).max() + 1e-300
        for _ in range(int(t.rng.choice([1, 1, 2]))):
            ask = t.rng.permutation(['mean', 'cov', 'corr', 'entropy', 'n_ess', 'meanfn', 'sample', 'clusters', 'marginal', 'kl'])[:6]
            for q in ask:
                what = "%s after %s" % (q, ev)
                if q == 'mean': t.close(u.est_mean(), p.est_mean(), "stale-mean", rtol=1e-11, atol=1e-13 * sc, msg=what)
                elif q == 'cov': t.close(u.est_covariance_mtx(), p.est_covariance_mtx(), "stale-covariance", rtol=1e-10, atol=1e-12 * sc ** 2, msg=what)
                elif q == 'corr':
                    if len(set(map(tuple, p.particle_locations))) > 3 and p.n_ess > 1.1 and np.all(np.diag(p.est_covariance_mtx()) > 1e-6):
                        t.close(u.est_covariance_mtx(corr=True), p.est_covariance_mtx(corr=True), "stale-correlation", rtol=1e-7, atol=1e-7, msg=what)
                elif q == 'entropy': t.close(u.est_entropy(), p.est_entropy(), "stale-entropy", rtol=1e-10, atol=1e-12, msg=what)
                elif q == 'n_ess': t.close(u.n_ess, p.n_ess, "stale-n_ess", rtol=1e-10, msg=what)
                elif q == 'meanfn': t.close(u.est_meanfn(np.tanh), p.est_meanfn(np.tanh), "stale-meanfn", rtol=1e-10, atol=1e-12, msg=what)
                elif q == 'sample':
                    # drawn from the present weights: no particle without weight, and the same law as the bare cloud
                    s = u.sample(2000); i = np.abs(s[:, None] - p.particle_locations[None]).sum(-1)
                    t.check(np.all(i.min(1) == 0), "stale-sample", what)
                    mu, var = p.est_mean(), np.diag(p.est_covariance_mtx())
                    rare = np.abs(p.particle_locations - mu).max(axis=0)
                    # Bernstein's inequality for the mean of 2000 draws, failing with probability below 1e-13
                    lim = np.sqrt(2 * np.maximum(var, 0) * 33 / 2000.) + rare * 33 / 3000. + 1e-9 * sc
                    t.check(np.all(np.abs(s.mean(0) - mu) <= lim), "stale-sample", lambda: "%s: mean of 2000 samples %s, posterior mean %s" % (what, s.mean(0), mu))
                elif q == 'clusters':
                    a, b = u.est_cluster_covs(), p.est_cluster_covs()
                    for g, h in zip(a, b): t.close(g, h, "stale-clusters", rtol=1e-8, atol=1e-10 * sc ** 2, msg=what)
                elif q == 'kl':
                    o = live.bare(u); o.particle_locations = o.particle_locations + .1
                    k = lambda z: 1 / (1 + np.abs(z))
                    v = live.twin(u)
                    t.close(u.est_kl_divergence(o, kernel=k, delta=.5), v.est_kl_divergence(o, kernel=k, delta=.5), "stale-divergence", rtol=1e-9, atol=1e-11, msg=what)
                elif q == 'marginal':
                    k = int(t.rng.randint(d))
                    if np.ptp(p.particle_locations[:, k]) < 1e-6: continue
                    v = live.twin(u)
                    for g, h in zip(u.posterior_marginal(k, res=30), v.posterior_marginal(k, res=30)): t.close(g, h, "stale-marginal", rtol=1e-8, atol=1e-9 * sc, msg=what)
                t.seen(("live", q, ev), 1)
    t.describe("updater with a history"); t.count("histories")


SECTIONS = [Section("live", sec_live, 60), Section("moments", sec_moments, 600), Section("distances", sec_distances, 150), Section("clusters", sec_clusters, 250),
            Section("marginal", sec_marginal, 300), Section("sample", sec_sample, 200)]
