"""C07: credible sets, hulls, ellipsoids and membership tests against the particle weights."""
import math
import numpy as np
import scipy.stats as st
from scipy.optimize import linprog
import qinfer as qi
from qinfer import utils
from mon import gen, live
from mon.core import Section, Skip

RULE = ("one observation = one credible set, hull, ellipsoid or membership verdict checked against the weights; "
        "distinct = (dimension, slice, level, weights kind, method)")
ASSUMPTIONS = ["hull-based methods need at least two sliced parameters and a full-dimensional credible set",
               "points within 1e-6 (relative) of a region's boundary are not judged"]


def setup(t, dmin=1):
    d = int(t.rng.randint(dmin, 6)); n = int(t.rng.choice([1, 2, 5, 30, 120]))
    kind = t.rng.randint(3)
    x = t.rng.normal(size=(n, d)) * (1 if kind else 10. ** t.rng.randint(-3, 4, d)) + (50 if kind == 2 else 0)
    w = gen.weights(t.rng, n)
    if t.rng.rand() < .3:          # weights peaked at the centre, as a real posterior
        w = np.exp(-((x - x.mean(0)) ** 2 / (x.var(0) + 1e-12)).sum(1)); w /= w.sum()
    if t.rng.rand() < .5 or n < 2:
        return x, w, qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    u = qi.SMCUpdater(gen.LabModel(d, 2, np.zeros((d + 1, 6))), n, gen.FnPrior(lambda r, k: r.normal(size=(k, d)), d))
    u.particle_locations = x.copy(); u.particle_weights = w.copy()
    return x, w, u


def slicing(t, d, least=1):
    if d <= least or t.rng.rand() < .4: return None, np.arange(d)
    for _ in range(20):
        a = int(t.rng.randint(0, d)); b = int(t.rng.randint(a + 1, d + 1)); s = int(t.rng.choice([1, 1, 2]))
        sl = np.s_[a:b:s]; idx = np.arange(d)[sl]
        if len(idx) >= least: return sl, idx
    return None, np.arange(d)


def index_of(t, rows, x):
    """Indices in x of the returned rows (locations are distinct), each used once."""
    if len(rows) == 0: return np.zeros(0, int)
    D = np.abs(np.asarray(rows)[:, None] - x[None]).max(-1)
    i = D.argmin(1)
    t.check(np.all(D[np.arange(len(rows)), i] == 0), "not-a-particle", "")
    t.check(len(set(i)) == len(i), "repeated-particle", "")
    return i


def sec_set(t):
    x, w, p = setup(t)
    n, d = x.shape
    cum = np.cumsum(np.sort(w)[::-1])
    levels = [float(v) for v in np.sort(t.rng.uniform(0.01, 1, 4))] + [0.95, .5, 1.0]
    if t.rng.rand() < .5: levels.append(float(min(1, cum[t.rng.randint(n)])))       # exactly at a partial sum
    levels = sorted(levels)
    prev = None
    for lv in levels:
        args = {} if lv == .95 else dict(level=lv)
        inside = p.est_credible_region(**args)
        a, b = p.est_credible_region(return_outside=True, **args)
        t.same(a, inside, "complement-inside", "")
        t.check(inside.ndim == 2 and inside.shape[1] == d, "shape", "%s" % (inside.shape,))
        ii = index_of(t, inside, x); oo = index_of(t, b, x)
        t.check(len(ii) + len(oo) == n and not set(ii) & set(oo), "complement", "%d inside, %d outside of %d" % (len(ii), len(oo), n))
        tot = math.fsum(w[ii])
        t.check(tot >= lv - 1e-9, "mass", "level %r: credible mass %r" % (lv, tot))
        t.check(len(ii) > 0 and tot - w[ii].min() <= lv + 1e-9, "not-smallest", "level %r: mass %r without the lightest member" % (lv, tot - w[ii].min()))
        # count: the smallest number of heaviest particles reaching the level, or one more at an exact tie
        need = int(np.searchsorted(cum, lv - 1e-9) + 1); most = int(np.searchsorted(cum, lv + 1e-9, side='right') + 1)
        t.check(min(need, n) <= len(ii) <= max(min(most, n), need), "size", "level %r: %d particles, expected %d..%d" % (lv, len(ii), need, most))
        if len(oo): t.check(w[ii].min() >= w[oo].max() - 1e-15, "not-heaviest", "lightest inside %g, heaviest outside %g" % (w[ii].min(), w[oo].max()))
        if prev is not None: t.check(prev <= set(ii), "not-nested", "level %r" % lv)
        prev = set(ii)
        sl, idx = slicing(t, d)
        if sl is not None:
            s1 = p.est_credible_region(modelparam_slice=sl, **args)
            t.same(s1, inside[:, idx], "slice", "")
            sa, sb = p.est_credible_region(modelparam_slice=sl, return_outside=True, **args)
            t.same(sa, inside[:, idx], "slice", ""); t.same(sb, b[:, idx], "slice", "")
        t.seen(("set", d, n, round(lv, 1), len(ii) == n, sl is not None))
    t.describe("n=%d d=%d levels %s" % (n, d, [round(v, 3) for v in levels]))


def in_hull(pts, y):
    """Independent membership: y is a convex combination of pts (linear programme)."""
    A = np.vstack([pts.T, np.ones(len(pts))])
    r = linprog(np.zeros(len(pts)), A_eq=A, b_eq=np.append(y, 1), bounds=(0, None), method="highs")
    return r.status == 0


def ref_mvee(P, iters=2000, tol=3e-4):
    N, d = P.shape
    Q = np.vstack([P.T, np.ones(N)]); u = np.ones(N) / N
    for _ in range(iters):
        M = np.einsum('in,in->n', Q, np.linalg.solve((Q * u) @ Q.T, Q))
        j = M.argmax(); s = (M[j] - d - 1) / ((d + 1) * (M[j] - 1))
        if M[j] - d - 1 < tol * (d + 1): break
        u *= 1 - s; u[j] += s
    c = P.T @ u
    return np.linalg.inv((P.T * u) @ P - np.outer(c, c)) / d, c, M.max() / (d + 1) - 1


def sec_regions(t):
    d = int(t.rng.randint(2, 5)); n = int(t.rng.choice([25, 60, 150]))
    L = np.eye(d) + .4 * np.tril(t.rng.normal(size=(d, d)), -1)
    scale = 10. ** t.rng.randint(-2, 3, d) if t.rng.rand() < .3 else np.ones(d)
    x = (t.rng.normal(size=(n, d)) @ L.T) * scale + t.rng.normal(size=d) * 3
    w = gen.weights(t.rng, n)
    p = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    sl, idx = slicing(t, d, 2)
    k = len(idx); level = float(t.rng.choice([.3, .5, .8, .9, .95, .99, .9999]))
    pts = p.est_credible_region(level=level, modelparam_slice=sl)
    if len(pts) < k + 3: raise Skip()
    t.describe("n=%d d=%d slice=%s level=%s credible=%d" % (n, d, sl, level, len(pts)))
    sd = pts.std(0); mid = pts.mean(0)
    faces, verts = p.region_est_hull(level=level, modelparam_slice=sl)
    t.check(faces.ndim == 3 and faces.shape[1:] == (k, k) and verts.ndim == 2 and verts.shape[1] == k, "hull-shape", "%s %s" % (faces.shape, verts.shape))
    vi = index_of(t, verts, pts)
    t.check(set(map(tuple, faces.reshape(-1, k))) == set(map(tuple, verts)), "hull-faces", "faces and vertices disagree")
    # supporting planes: every credible particle on one side of every face
    for f in faces:
        A = (f[1:] - f[0]) / sd
        nrm = np.linalg.svd(A)[2][-1]
        s = ((pts - f[0]) / sd) @ nrm
        t.check(s.max() < 1e-7 or s.min() > -1e-7, "hull-face", "credible particles on both sides of a face")
    for _ in range(4):      # vertices generate the set: extremes in random directions are vertices
        v = t.rng.normal(size=k) / sd
        t.check(abs((verts @ v).max() - (pts @ v).max()) < 1e-9 * (1 + np.abs(pts @ v).max()), "hull-vertices", "")
    t.seen(("hull", d, k, level), 3)
    # ellipsoid
    tol = 1e-4 if t.rng.rand() < (.3 if t.thorough else .05) else float(t.rng.choice([1e-3, 3e-3, 1e-2])); kw = {} if tol == 1e-4 else dict(tol=tol)
    A, c = p.region_est_ellipsoid(level=level, modelparam_slice=sl, **kw)
    t.check(A.shape == (k, k) and np.shape(c) == (k,), "ellipsoid-shape", "%s %s" % (A.shape, np.shape(c)))
    As = A / np.outer(sd, sd)
    t.check(np.abs(As - As.T).max() < 1e-6 * np.abs(As).max() and np.linalg.eigvalsh((As + As.T) / 2).min() > 0, "ellipsoid-matrix", "")
    q = np.einsum('ij,jk,ik->i', (pts - c) / sd, np.linalg.inv(As), (pts - c) / sd)
    slack = 10 * tol * (k + 1)
    t.check(q.max() <= 1 + slack, "ellipsoid-contains", "credible particle at quadratic form %g (slack %g)" % (q.max(), slack))
    B, c0, eps = ref_mvee(verts / sd)
    r = 0.5 * (np.linalg.slogdet(As)[1] + np.linalg.slogdet(B)[1])       # log volume ratio
    t.check(abs(r) < k * slack + (k + 1) * eps + 1e-6, "ellipsoid-minimal", "log volume ratio to the minimal ellipsoid %g" % r)
    t.check(np.abs((c / sd - c0) @ np.linalg.cholesky(B)).max() < math.sqrt(k * slack + (k + 1) * eps) + 1e-3, "ellipsoid-centre", "")
    vol = math.pi ** (k / 2) / math.gamma(k / 2 + 1) * math.sqrt(np.linalg.det(A))
    t.close(utils.ellipsoid_volume(invA=A), vol, "ellipsoid-volume", rtol=1e-6)
    t.seen(("ellipsoid", d, k, level, tol), 3)
    # membership
    y = np.vstack([mid + t.rng.normal(size=(12, k)) * sd * t.rng.choice([.3, 1, 2, 3], (12, 1)), mid + .5 * (verts[:4] - mid), mid + 1.5 * (verts[:4] - mid), mid + (1 - 1e-6) * (pts[:3] - mid)])   # not on the boundary itself: its verdict is rounding
    for method in ('hpd-hull', 'hpd-mvee', 'pce'):
        kw = dict(level=level, modelparam_slice=sl)
        if method != 'hpd-hull' or t.rng.rand() < .5: kw['method'] = method
        if method == 'hpd-mvee': kw['tol'] = tol
        got = np.asarray(p.in_credible_region(y, **kw))
        t.check(got.shape == (len(y),) and got.dtype == bool, "membership-shape", "%s %s" % (got.shape, got.dtype))
        step = 3 if method != 'hpd-mvee' else 9
        one = [np.asarray(p.in_credible_region(v, **kw)) for v in y[::step]]
        t.check(all(o.size == 1 for o in one), "membership-single-shape", method)
        t.check(np.array_equal(np.array([bool(o.ravel()[0]) for o in one]), got[::step]), "membership-single", lambda: "%s: single and batch answers differ at %s" % (method, [i * step for i in np.flatnonzero(np.array([bool(o.ravel()[0]) for o in one]) != got[::step])]))
        if method == 'hpd-hull':
            for v, g in zip(y, got):
                a, b = in_hull(pts / sd, (mid + (v - mid) * (1 + 1e-5)) / sd), in_hull(pts / sd, (mid + (v - mid) * (1 - 1e-5)) / sd)
                if a == b: t.check(g == a, "membership-hull", "point %s: %s, hull says %s" % (v, g, a)); t.count("hull verdicts")
        elif method == 'hpd-mvee':
            qq = np.einsum('ij,jk,ik->i', (y - c) / sd, np.linalg.inv(As), (y - c) / sd)
            far = np.abs(qq - 1) > 1e-5
            t.check(np.array_equal(got[far], qq[far] <= 1), "membership-mvee", "%s vs %s" % (got, qq)); t.count("ellipsoid verdicts", far.sum())
        else:
            mu = gen.wmean(w, x)[idx]; cov = gen.wcov(w, x)[np.ix_(idx, idx)] / np.outer(sd, sd)
            if np.linalg.cond(cov) > 1e8: continue
            qq = np.einsum('ij,jk,ik->i', (y - mu) / sd, np.linalg.inv(cov), (y - mu) / sd)
            m = st.chi2.ppf(level, k); far = np.abs(qq / m - 1) > 1e-5
            t.check(np.array_equal(got[far], qq[far] <= m), "membership-pce", "%s vs %s (limit %g)" % (got, qq, m)); t.count("covariance-ellipsoid verdicts", far.sum())
        t.seen(("member", method, d, k, level, int(got.sum()) > 0), len(y))


def sec_pce1(t):
    """One-parameter slices and models, covariance-ellipsoid method."""
    d = int(t.rng.randint(1, 4)); n = int(t.rng.choice([5, 40]))
    x = t.rng.normal(size=(n, d)); w = gen.weights(t.rng, n, zero=False)
    p = qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    k = int(t.rng.randint(d)); lv = float(t.rng.uniform(.05, .99)) if t.rng.rand() < .5 else float(t.rng.choice([1e-6, 1e-3, .01, .997, .999, .9999, .999999]))
    mu, s = gen.wmean(w, x)[k], math.sqrt(gen.wcov(w, x)[k, k])
    if s < 1e-4: raise Skip()
    z = st.norm.ppf((1 + lv) / 2)
    y = mu + s * z * np.array([-1.01, -.99, 0, .99, 1.01, 3])
    got = p.in_credible_region(y[:, None], level=lv, method='pce', modelparam_slice=np.s_[k:k + 1])
    t.check(np.array_equal(np.asarray(got).ravel(), [False, True, True, True, False, False]), "membership-pce-1d", "level %g: %s" % (lv, got))
    # several parameters: points just inside and just outside of the ellipsoid in random directions
    sl, idx = slicing(t, d, 1); q = len(idx); C = gen.wcov(w, x)[np.ix_(idx, idx)]; sd = np.sqrt(np.diag(C))
    if sd.min() > 1e-4 and np.linalg.cond(C / np.outer(sd, sd)) < 1e6:
        v = t.rng.normal(size=(6, q)); v /= np.linalg.norm(v, axis=1)[:, None]; f = np.array([.2, .95, .999, 1.001, 1.05, 4])
        y = gen.wmean(w, x)[idx] + (f * math.sqrt(st.chi2.ppf(lv, q)))[:, None] * (v @ np.linalg.cholesky(C).T)
        got = p.in_credible_region(y, level=lv, method='pce', modelparam_slice=sl)
        t.check(np.array_equal(np.asarray(got).ravel(), f < 1), "membership-pce", "level %g, %d parameters: %s" % (lv, q, got)); t.seen(("pce-edge", q, lv > .995, lv < .05), 6)
    t.describe("n=%d d=%d parameter %d level %g" % (n, d, k, lv)); t.seen(("pce1", d, n, k), 6)


def sec_live(t):
    """Credible sets of an updater with a history are those of a bare cloud with the same particles and weights."""
    for u, ev, spec in live.walk(t, nmax=60):
        p = live.bare(u); d = u.n_rvs; lv = float(t.rng.choice([.5, .9, .95]))
        a, b = u.est_credible_region(level=lv, return_outside=True); c, e = p.est_credible_region(level=lv, return_outside=True)
        t.same(np.array(a), np.array(c), "stale-region", "level %g after %s" % (lv, ev)); t.same(np.array(b), np.array(e), "stale-region", "level %g after %s" % (lv, ev))
        y = np.vstack([p.est_mean(), p.particle_locations[:3], p.particle_locations[:2] * 1.7])
        cov = p.est_covariance_mtx()
        if np.all(np.diag(cov) > 1e-8) and np.linalg.cond(cov) < 1e6:
            t.check(np.array_equal(u.in_credible_region(y, level=lv, method='pce'), p.in_credible_region(y, level=lv, method='pce')), "stale-membership", "pce after %s" % ev)
            uniq = len(np.unique(c, axis=0))
            if 2 <= d <= 3 and uniq > d + 3 and np.linalg.cond(np.cov(c.T)) < 1e5:
                t.check(np.array_equal(u.in_credible_region(y, level=lv), p.in_credible_region(y, level=lv)), "stale-membership", "hull after %s" % ev)
                f, g = u.region_est_hull(level=lv)[1], p.region_est_hull(level=lv)[1]
                t.check(set(map(tuple, f)) == set(map(tuple, g)), "stale-hull", "after %s" % ev)
                A, m = u.region_est_ellipsoid(level=lv, tol=.01); B, q = p.region_est_ellipsoid(level=lv, tol=.01)
                t.close(A, B, "stale-ellipsoid", rtol=1e-6, atol=1e-8 * np.abs(B).max()); t.close(m, q, "stale-ellipsoid", rtol=1e-6, atol=1e-8 * np.abs(y).max())
        t.seen(("live", d, ev, lv), 3)
    t.describe("updater with a history"); t.count("histories")


SECTIONS = [Section("live", sec_live, 200), Section("set", sec_set, 400), Section("regions", sec_regions, 150), Section("pce1", sec_pce1, 120)]
