"""C24: numeric helpers satisfy their algebraic contracts.

Monitor: every return value is judged against an independent definition (loops
in exact or extended arithmetic, parsing printed text back, known optimal
ellipsoids), on inputs including strided, empty, boundary and extreme ones.
"""
import math, re, itertools, warnings
from fractions import Fraction
import numpy as np
from scipy import stats
import qinfer.utils as u
from .core import Section, Skip
from . import gen
from .c15 import chisq

RULE = ("an observation is one helper call judged against its definition, or one three-stage law test; distinct means a different "
        "(helper, input kind, shape) combination")
ASSUMPTIONS = ["enclosing ellipsoids are judged for point sets that span their space, with the containment slack implied by the stopping tolerance",
               "uncertainty text is judged by what it says, parsed back: value and uncertainty to half a unit in the place of the uncertainty's first digit",
               "significant-figure comparison is judged on positive numbers that clearly agree or clearly disagree"]


def vary(rng, x):
    """The same values in another memory layout."""
    k = rng.randint(4)
    if k == 0: return x
    if k == 1: return np.asfortranarray(x)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype); v = big[tuple(slice(None, None, 2) for _ in x.shape)]; v[...] = x; return v
    r = x[tuple(slice(None, None, -1) for _ in x.shape)].copy(); return r[tuple(slice(None, None, -1) for _ in x.shape)]


def shapes(rng): return tuple(int(k) for k in rng.randint(1, 4, size=rng.randint(0, 4)))


def sec_simplex(t):
    rng = t.rng
    K = int(rng.randint(1, 8)); sh = shapes(rng)
    x = rng.dirichlet(np.ones(K) * rng.choice([.1, 1, 20]), size=sh) if K > 1 else np.ones(sh + (1,))
    x = np.asarray(x).reshape(sh + (K,))
    kind = ['interior', 'zeros', 'vertex', 'uniform', 'thin'][rng.randint(5)]
    if kind == 'zeros' and K > 1:
        x = x * (rng.rand(*x.shape) < .6); x[..., rng.randint(K)] += .1; x = x / x.sum(axis=-1, keepdims=True)
    elif kind == 'vertex': x = np.eye(K)[rng.randint(K, size=sh)].reshape(sh + (K,))
    elif kind == 'uniform': x = np.ones(sh + (K,)) / K
    elif kind == 'thin' and K > 1: x = x ** 6 + 1e-14; x = x / x.sum(axis=-1, keepdims=True)
    x = vary(rng, x); x0 = x.copy()
    t.describe(('simplex', kind, x.shape))
    y = u.from_simplex(x)
    t.check(y.shape == x.shape and not np.isnan(y).any(), "from_simplex", lambda: "%s of %s" % (y, x))
    t.check(np.all(y[..., -1] == 0), "from_simplex-last", lambda: repr(y))
    t.same(x, x0, "argument-changed")
    with np.errstate(all='ignore'):
        back = u.to_simplex(y)
    t.close(back, x, "to_simplex(from_simplex)", rtol=1e-9, atol=1e-12, msg=kind)
    if kind == 'uniform': t.close(y, np.zeros(y.shape), "uniform-not-zero", atol=1e-12)
    if kind == 'interior' and K > 1:     # the documented stick-breaking formula
        rest = 1 - np.concatenate([np.zeros(sh + (1,)), np.cumsum(x0, axis=-1)[..., :-1]], axis=-1)
        ok = (rest > 1e-3) & (x0 > 1e-6) & (rest - x0 > 1e-6); ok[..., -1] = False
        z = x0[ok] / rest[ok]; k = np.broadcast_to(np.arange(1, K + 1), x0.shape)[ok]
        t.close(y[ok], np.log(z) - np.log1p(-z) + np.log(K - k), "stick-breaking", rtol=1e-6, atol=1e-6)
    y = np.clip(rng.standard_normal(sh + (K,)) * rng.choice([.1, 2, 5]), -8, 8); y[..., -1] = 0
    y = vary(rng, y); y0 = y.copy()
    s = u.to_simplex(y)
    t.check(s.shape == y.shape and np.all(s >= 0), "to_simplex-negative", lambda: repr(s))
    t.close(s.sum(axis=-1), np.ones(sh), "to_simplex-sum", atol=1e-12)
    t.close(u.from_simplex(s), y0, "from_simplex(to_simplex)", rtol=1e-6, atol=1e-5 if K < 4 else 1e-3)
    t.same(y, y0, "argument-changed")
    t.seen((kind, K, len(sh)))


def ref_polytope(rng, d):
    """Points whose minimum-volume ellipsoid is the unit ball: vertex sets with an isotropic second moment and mean zero."""
    k = rng.randint(3)
    if k == 0: V = np.concatenate([np.eye(d), -np.eye(d)])
    elif k == 1: V = np.array(list(itertools.product([-1., 1.], repeat=d))) / math.sqrt(d)
    else:
        E = np.eye(d + 1) - 1. / (d + 1); U, s, Vt = np.linalg.svd(E); V = E.dot(Vt[:d].T); V = V / np.linalg.norm(V, axis=1)[:, None]
    return V, ['cross', 'cube', 'simplex'][k]


def sec_mvee(t):
    rng = t.rng
    d = int(rng.randint(1, 5)); tol = float(rng.choice([1e-2, 1e-3, 3e-4]))
    known = rng.rand() < .6
    if known:
        V, kind = ref_polytope(rng, d)
        n_in = int(rng.choice([0, 1, 5, 30]))
        inner = rng.standard_normal((n_in, d)); inner = inner / np.linalg.norm(inner, axis=1)[:, None] * (rng.rand(n_in, 1) * .9)
        P = np.concatenate([V, inner])
    else:
        kind = 'random'; P = rng.standard_normal((int(rng.randint(d + 2, 40)), d))
        if rng.rand() < .3: P = np.concatenate([P, P[:3]])           # duplicates
    while True:
        L = rng.standard_normal((d, d))
        if np.linalg.cond(L) < 30: break
    L *= 10. ** rng.uniform(-2, 2); c0 = rng.standard_normal(d) * 10. ** rng.uniform(-1, 1)
    P = P.dot(L.T) + c0
    P = vary(rng, P[rng.permutation(len(P))]); P0 = P.copy()
    if np.linalg.cond(np.cov(P0.T).reshape(d, d)) > 1e6: raise Skip
    t.describe(('mvee', kind, P.shape, tol))
    A, c = u.mvee(P, tol)
    t.same(P, P0, "argument-changed")
    t.check(A.shape == (d, d) and c.shape == (d,) and np.all(np.isfinite(A)), "shape", lambda: "%s %s" % (A.shape, c.shape))
    t.close(A, A.T, "not-symmetric", rtol=1e-6, atol=1e-6 * np.abs(A).max())
    w = np.linalg.eigvalsh((A + A.T) / 2); t.check(w.min() > 0, "not-positive", lambda: repr(w))
    dist = np.einsum('ni,ij,nj->n', P0 - c, A, P0 - c)
    slack = 5 * tol * (d + 1) + 1e-9
    t.check(dist.max() <= 1 + slack, "point-outside", lambda: "a point has squared distance %r (tolerance %g, d=%d)" % (dist.max(), tol, d))
    vol = 1 / math.sqrt(np.linalg.det(A))
    if known:
        vol0 = abs(np.linalg.det(L))
        t.check(vol <= vol0 * (1 + 1e-6), "not-minimal", lambda: "%s: volume ratio to the optimum %r" % (kind, vol / vol0))
        t.check(vol >= vol0 * (1 + slack) ** (-d / 2.) * (1 - 1e-6), "too-small", lambda: "%s: volume ratio %r" % (kind, vol / vol0))
        lo = 3 * math.sqrt(slack * d)
        M = L.T.dot(A).dot(L)
        t.check(np.abs(M - np.eye(d)).max() < lo and np.linalg.norm(np.linalg.solve(L, c - c0)) < lo, "wrong-ellipsoid", lambda: "%s: %s, centre off by %s" % (kind, M, np.linalg.solve(L, c - c0)))
    else:
        S = np.cov(P0.T).reshape(d, d); m = P0.mean(axis=0)      # any enclosing ellipsoid is at least as large
        r2 = np.einsum('ni,ij,nj->n', P0 - m, np.linalg.inv(S), P0 - m).max()
        other = math.sqrt(np.linalg.det(S) * r2 ** d)
        t.check(vol <= other * (1 + 1e-6), "not-minimal", lambda: "volume %r, but %r encloses as well" % (vol, other))
    # at least d+1 points touch
    t.check((dist > 1 - 20 * slack).sum() >= min(2, len(P0)), "does-not-touch", lambda: repr(np.sort(dist)[::-1][:5]))
    if tol == 1e-3:
        B, b = u.mvee(P); t.same(B, A, "default-tolerance"); t.same(b, c, "default-tolerance")
    t.seen((kind, d, tol, len(P0) > 20))


def spd(rng, d, cond=100.):
    Q = np.linalg.qr(rng.standard_normal((d, d)))[0]
    return (Q * np.exp(rng.uniform(0, math.log(cond), d))).dot(Q.T)


def sec_ellipsoid(t):
    rng = t.rng
    d = int(rng.randint(1, 6)) if rng.rand() < .7 else int(rng.randint(6, 13)); A = spd(rng, d) * 10. ** rng.uniform(-4, 4); A = (A + A.T) / 2; c = rng.standard_normal(d) * 3
    t.describe(('ellipsoid', d))
    sphere = {0: 1., 1: 2.}
    for k in range(2, d + 1): sphere[k] = sphere[k - 2] * 2 * math.pi / k
    sphere = sphere[d]
    v = math.exp(math.log(sphere) - .5 * np.linalg.slogdet(A)[1])
    A0 = A.copy()
    t.close(np.real(u.ellipsoid_volume(A=A)), v, "volume", rtol=1e-6); t.close(np.real(u.ellipsoid_volume(A)), v, "volume", rtol=1e-6)
    t.close(np.real(u.ellipsoid_volume(invA=np.linalg.inv(A))), v, "volume-inverse", rtol=1e-6)
    try: u.ellipsoid_volume()
    except ValueError: pass
    else: t.fail("no-matrix-accepted", "")
    # strongly elongated: the volume is exact for axes of very different length
    ax = 10. ** rng.uniform(-9, 9, d); perm = rng.permutation(d)
    t.close(np.real(u.ellipsoid_volume(A=np.diag(ax))), sphere / math.sqrt(math.prod(ax)), "volume-elongated", rtol=1e-6)
    t.close(np.real(u.ellipsoid_volume(invA=np.diag(ax))), sphere * math.sqrt(math.prod(ax)), "volume-elongated", rtol=1e-6)
    # membership: x = c + r sqrt(A) e
    root = np.linalg.cholesky(A)
    n = int(rng.randint(1, 30)); e = rng.standard_normal((n, d)); e /= np.linalg.norm(e, axis=1)[:, None]
    r = rng.choice([0, .3, .999, 1.001, 1.2, 30], size=n)
    X = vary(rng, c + (e * r[:, None]).dot(root.T)); X0 = X.copy()
    got = u.in_ellipsoid(X, A, c)
    t.check(got.shape == (n,) and got.dtype == bool, "membership-shape", lambda: repr(got))
    t.check(np.array_equal(got, r < 1), "membership", lambda: "radii %s, members %s" % (r, got))
    for i in range(min(n, 4)):
        g = u.in_ellipsoid(X[i], A, c)
        t.check(np.shape(g) == () and bool(g) == (r[i] < 1), "membership-single", lambda: "radius %s: %r" % (r[i], g))
    t.same(X, X0, "argument-changed"); t.same(A, A0, "argument-changed")
    # closed: points exactly on the boundary
    k = rng.randint(-3, 4, size=d); D = np.diag(4. ** k); cc = rng.randint(-4, 5, size=d).astype(float)
    B = np.concatenate([cc + np.diag(2. ** k), cc - np.diag(2. ** k)])
    t.check(u.in_ellipsoid(B, D, cc).all() and all(u.in_ellipsoid(b, D, cc) for b in B), "boundary-open", lambda: repr(B))
    t.seen(('ellipsoid', d, n == 1))


def sec_matrix(t):
    rng = t.rng
    d = int(rng.randint(1, 8)); cplx = rng.rand() < .5; kind = ['full', 'rank', 'negative', 'zero', 'diag'][rng.randint(5)]
    r = d if kind in ('full', 'negative', 'diag') else max(0, d - int(rng.randint(1, d + 1)))
    G = rng.standard_normal((d, max(r, 1))) + (1j * rng.standard_normal((d, max(r, 1))) if cplx else 0)
    A = G.dot(G.conj().T) if r else np.zeros((d, d)) * (1j if cplx else 1)
    if kind == 'zero': A = A * 0
    if kind == 'diag': A = np.diag(rng.rand(d) * 5)
    A = (A + A.conj().T) / 2 * 10. ** (rng.uniform(-4, 4) if rng.rand() < .7 else rng.uniform(-24, 24))
    pos = A
    if kind == 'negative':
        w, V = np.linalg.eigh(A); w = w - np.median(w); A = (V * w).dot(V.conj().T); A = (A + A.conj().T) / 2
        pos = (V * np.maximum(w, 0)).dot(V.conj().T)
    A = vary(rng, A); A0 = A.copy(); sc = max(np.abs(A).max(), 1e-300)
    t.describe(('sqrtm', kind, d, cplx))
    R, err = u.sqrtm_psd(A)
    t.same(A, A0, "argument-changed")
    t.check(R.shape == A.shape and np.all(np.isfinite(R)), "sqrt-shape", "")
    t.close(R.dot(R), pos, "sqrt-does-not-square-back", rtol=1e-8, atol=1e-9 * sc, msg=kind)
    t.check(np.linalg.eigvalsh((R + R.conj().T) / 2).min() >= -1e-7 * math.sqrt(sc), "sqrt-negative", "")
    t.close(R, R.conj().T, "sqrt-not-hermitian", atol=1e-9 * math.sqrt(sc))
    t.close(err, np.linalg.norm(R.dot(R) - A0), "sqrt-error", rtol=1e-6, atol=1e-10 * sc)
    t.close(u.sqrtm_psd(A, est_error=False), R, "sqrt-no-error", atol=1e-12 * math.sqrt(sc))
    t.close(u.sqrtm_psd(A, False), R, "sqrt-no-error", atol=1e-12 * math.sqrt(sc))
    v = rng.standard_normal(d) + (1j * rng.standard_normal(d) if cplx else 0)
    if rng.rand() < .3: v = rng.randint(-5, 6, size=d)
    want = np.array([[v[i] * v[j] for j in range(d)] for i in range(d)])
    t.close(u.outer_product(vary(rng, v)), want, "outer_product"); t.close(u.outer_product(v[:, None]), want, "outer_product-column")
    # deprecated particle moments
    n = int(rng.randint(1, 40)); wts = gen.weights(rng, n); X = rng.standard_normal((n, d)); f = lambda x: x ** 2
    m = gen.wmean(wts, X)
    t.close(u.particle_meanfn(wts, X), m, "particle_mean"); t.close(u.particle_meanfn(wts, X, f), gen.wmean(wts, X ** 2), "particle_meanfn")
    t.close(u.particle_covariance_mtx(wts, X), np.einsum('n,ni,nj->ij', wts, X - m, X - m), "particle_cov", atol=1e-9)
    s = float(rng.uniform(.1, 5)); n = int(rng.randint(1, 20))
    g = u.compactspace(s, n); q = np.arange(1, n + 1) / (n + 1.)
    t.close(g, s * np.log(q / (1 - q)), "compactspace", atol=1e-9)
    t.seen((kind, d, cplx))


def logmult(n, p):
    """log of the multinomial probability, in exact integers for the coefficient."""
    N = sum(n); c = math.factorial(N)
    for k in n: c //= math.factorial(k)
    s = math.log(c)
    for k, q in zip(n, p):
        if k: 
            if q <= 0: return -math.inf
            s += k * math.log(q)
    return s


def sec_multinomial(t):
    rng = t.rng
    K = int(rng.randint(2, 6)); sh = shapes(rng); short = rng.rand() < .4
    p = np.moveaxis(rng.dirichlet(np.ones(K) * rng.choice([.3, 1, 5]), size=sh).reshape(sh + (K,)), -1, 0)
    zero = rng.rand() < .4
    if zero:
        p = p * (rng.rand(*p.shape) < .7); p[rng.randint(K)] += .2; p = p / p.sum(axis=0)
    N = int(rng.choice([0, 1, 2, 5, 20, 200]))
    if rng.rand() < .25 and K > 1 and not short:                  # a side that almost never comes up
        j = rng.randint(K); p[j] = 10. ** -rng.uniform(9, 60); rest = np.delete(np.arange(K), j)
        p[rest] = (p[rest] + 1e-3) / (p[rest] + 1e-3).sum(axis=0); zero = False
    n = np.empty((K,) + sh, dtype=int)
    for i in np.ndindex(*sh): n[(slice(None),) + i] = rng.multinomial(int(rng.randint(N + 1)), rng.dirichlet(np.ones(K)))
    t.describe(('multinomial', K, sh, N, short, zero))
    pp = vary(rng, p[:-1].copy() if short else p.copy()); nn = vary(rng, n); p0, n0 = pp.copy(), nn.copy()
    got = u.multinomial_pdf(nn, pp)
    t.check(np.shape(got) == sh, "pdf-shape", lambda: "%s, expected %s" % (np.shape(got), sh))
    full = np.concatenate([p0, np.clip(1 - p0.sum(axis=0), 0, 1)[None]]) if short else p0
    for i in np.ndindex(*sh):
        k = [int(a) for a in n[(slice(None),) + i]]; q = full[(slice(None),) + i]
        w = math.exp(logmult(k, q))
        if short and k[-1] and q[-1] < 1e-9: continue            # rounding of 1-sum decides
        t.close(np.asarray(got)[i], w, "pdf", rtol=1e-8, atol=1e-300, msg=lambda: "n=%s p=%s" % (k, q))
    t.same(pp, p0, "argument-changed"); t.same(nn, n0, "argument-changed")
    NN = int(rng.randint(0, 30)); x = rng.randint(-1, NN + 2, size=sh); q = rng.choice([0., .2, .5, 1., rng.rand()])
    want = np.array([math.comb(NN, int(k)) * q ** int(k) * (1 - q) ** (NN - int(k)) if 0 <= k <= NN else 0. for k in x.ravel()]).reshape(sh)
    t.close(u.binomial_pdf(NN, x, q), want, "binomial_pdf", rtol=1e-8, atol=1e-14)
    h = float(rng.choice([0, .5, .509, 3])); kk = rng.randint(0, NN + 2, size=sh)
    NN += 1
    est = u.binom_est_p(kk, NN, h)
    t.close(est, (kk + h) / (NN + 2 * h), "binom_est_p"); t.close(u.binom_est_error(est, NN, h), np.sqrt(est * (1 - est) / (NN + 2 * h + 1)), "binom_est_error")
    if h == 0: t.close(u.binom_est_p(kk, NN), kk / float(NN), "binom_est_p"); t.close(u.binom_est_error(est, NN), np.sqrt(est * (1 - est) / (NN + 1.)), "binom_est_error")
    # sampling: shapes, totals, support, law
    size = [None, 1, 3, (2,), (2, 3), (1, 2, 2), 0][rng.randint(7)]
    pv = vary(rng, p)
    s = u.sample_multinomial(N, pv, size)
    want = p.shape + (() if size is None else (size,) if isinstance(size, int) else size)
    t.check(s.shape == want and s.dtype.kind in 'iu', "sample-shape", lambda: "%s %s, expected %s" % (s.shape, s.dtype, want))
    t.check(np.all(s >= 0) and np.all(s.sum(axis=0) == N), "sample-total", lambda: repr(s))
    t.check(not np.any(s[(p == 0)] != 0), "sample-impossible", lambda: repr(s))
    if p.ndim <= 2 and N:
        col = rng.randint(p.shape[1]) if p.ndim == 2 else None
        q = p if col is None else p[:, col]
        def law(m):
            s = u.sample_multinomial(N, p, m); s = s if col is None else s[:, col]
            j = int(np.argmax(q * (1 - q)))
            if q[j] in (0, 1): return 1., ""
            probs = stats.binom(N, q[j]).pmf(np.arange(N + 1)); c = np.bincount(s[j], minlength=N + 1)
            return chisq(c, probs), "count of side %d among %d rolls, p=%s" % (j, N, q)
        t.stat("sample-law", law, 400)
    t.seen((K, sh, short, zero, N == 0, str(size)))


FMT = ['f8', 'i4', 'c16', 'u1', '?', 'i8', ('f8', (3,)), ('i4', (2, 2))]


def rand_dtype(rng, names):
    if rng.rand() < .4:
        f = FMT[rng.randint(6)]
        return np.dtype(f) if rng.rand() < .5 else np.dtype([(names.pop(), f)])
    return np.dtype([(names.pop(),) + (f if isinstance(f, tuple) else (f,)) for f in [FMT[rng.randint(len(FMT))] for _ in range(rng.randint(1, 4))]])


def rand_struct(rng, dt, n):
    a = np.zeros(n, dtype=dt)
    def fill(v):
        v[...] = rng.randint(0, 2, size=v.shape) if v.dtype.kind == 'b' else rng.randint(0, 100, size=v.shape) if v.dtype.kind in 'iu' else rng.standard_normal(v.shape)
    if dt.names:
        for k in dt.names: fill(a[k])
    else: fill(a)
    return a


def sec_struct(t):
    rng = t.rng
    names = ['n%d' % i for i in range(40)][::-1]
    k = int(rng.randint(1, 5)); n = int(rng.choice([1, 1, 2, 7]))
    if rng.rand() < .25: d0 = rand_dtype(rng, names); dts = [d0] * k if not d0.names else [rand_dtype(rng, names) for _ in range(k)]
    else: dts = [rand_dtype(rng, names) for _ in range(k)]
    arrs = [rand_struct(rng, d, n) for d in dts]; orig = [a.copy() for a in arrs]
    strided = rng.rand() < .4
    if strided: arrs = [vary(rng, a) for a in arrs]
    t.describe(('struct', dts, n, strided))
    J = u.join_struct_arrays(arrs)
    t.check(J.shape == (n,) and J.dtype.itemsize == sum(d.itemsize for d in dts), "join-shape", lambda: "%s %s" % (J.shape, J.dtype))
    for a, d in zip(orig, dts):
        if d.names:
            for f in d.names: t.same(J[f], a[f], "join-field", f)
    nm = sum(len(d.names or [0]) for d in dts); t.check(len(J.dtype.names) == nm, "join-fields", lambda: repr(J.dtype))
    off = 0
    for a, d in zip(orig, dts):
        raw = np.ascontiguousarray(J).view(np.uint8).reshape(n, -1)[:, off:off + d.itemsize]
        t.check(raw.tobytes() == a.tobytes(), "join-bytes", ""); off += d.itemsize
    for a, o in zip(arrs, orig): t.same(a, o, "argument-changed")
    JJ = vary(rng, J); J0 = J.copy()
    for spec in (dts, tuple(dts)):
        parts = u.separate_struct_array(JJ, spec)
        t.check(isinstance(parts, list) and len(parts) == k, "separate-count", lambda: repr(parts))
        for p, a, d in zip(parts, orig, dts):
            t.check(p.dtype == d, "separate-dtype", lambda: "%s, expected %s" % (p.dtype, d)); t.same(p, a, "separate-values")
    if len(set(dts)) == 1:
        parts = u.separate_struct_array(JJ, dts[0])
        t.check(len(parts) == k, "separate-single-count", lambda: "%d parts, expected %d" % (len(parts), k))
        for p, a in zip(parts, orig): t.same(p, a, "separate-single")
    t.same(JJ, J0, "argument-changed")
    parts[0].view(np.uint8)[...] ^= 1; t.same(JJ, J0, "separate-aliases")
    t.seen((tuple(map(str, dts)), n, strided))


def parse_unc(s):
    num = r"(-?\d+(?:\.\d*)?)"
    m = re.match(r"^\(%s \\pm %s\) \\times 10\^\{(-?\d+)\}$" % (num, num), s)
    if m: return Fraction(m.group(1)), Fraction(m.group(2)), int(m.group(3))
    m = re.match(r"^%s \\pm %s$" % (num, num), s)
    if m: return Fraction(m.group(1)), Fraction(m.group(2)), 0
    return None


def sec_text(t):
    rng = t.rng
    for _ in range(20):
        v = float(rng.choice([-1, 1]) * rng.uniform(1, 10) * 10. ** rng.randint(-9, 10))
        un = float(rng.uniform(1, 10) * 10. ** rng.randint(-9, 10))
        k = rng.randint(8)
        if k == 0: v = 0.
        if k == 1: v = float(10. ** rng.randint(-9, 10))
        if k == 2: un = float(10. ** rng.randint(-6, 10))
        if k == 3: v, un = int(rng.randint(-10 ** 6, 10 ** 6)), int(rng.randint(1, 1000))
        brk = int(rng.choice([4, 4, 0, 2, 8]))
        s = u.format_uncertainty(v, un) if brk == 4 and rng.rand() < .5 else u.format_uncertainty(v, un, brk)
        got = parse_unc(s)
        t.check(got is not None, "uncertainty-unreadable", lambda: "format_uncertainty(%r, %r, %d) = %r" % (v, un, brk, s))
        a, b, e = got; sc = Fraction(10) ** e
        mag = math.floor(math.log10(un) + 1e-12); half = Fraction(10) ** mag * Fraction(500001, 1000000)
        t.check(abs(a * sc - Fraction(v)) <= half + Fraction(abs(v)) / 10 ** 14, "uncertainty-value", lambda: "format_uncertainty(%r, %r, %d) = %r" % (v, un, brk, s))
        t.check(abs(b * sc - Fraction(un)) <= half and b > 0, "uncertainty-error", lambda: "format_uncertainty(%r, %r, %d) = %r" % (v, un, brk, s))
        t.seen(('unc', e != 0, mag, brk))
        s0 = u.format_uncertainty(v, 0)
        t.check(re.match(r"^-?\d+\.\d+$", s0) and abs(Fraction(s0) - Fraction(v)) <= Fraction(1, 10 ** 6), "exact-value", lambda: "format_uncertainty(%r, 0) = %r" % (v, s0))
    for _ in range(20):
        S = float(rng.choice([rng.uniform(0, 60), rng.uniform(0, 3600), rng.uniform(0, 86400), rng.uniform(0, 40 * 86400), float(rng.randint(0, 10 ** 6))]))
        s = u.pretty_time(S)
        m = re.match(r"^(?:(\d+) days?, )?(?:(\d+):)?(\d+):(\d\d)$", s)
        if m:
            d, h, mi, se = [int(g or 0) for g in m.groups()]
            t.check(86400 * d + 3600 * h + 60 * mi + se == math.floor(S) and se < 60 and (mi < 60 or m.group(2) is None and mi <= 60) and (h < 24 or m.group(1) is None and h <= 24),
                    "pretty_time", lambda: "%r s is shown as %r" % (S, s))
            t.check(m.group(1) is None or m.group(2) is not None, "pretty_time-hours", lambda: "%r s is shown as %r" % (S, s))
            if m.group(2): t.check(len(m.group(3)) == 2, "pretty_time-padding", lambda: repr(s))
        else:
            m = re.match(r"^(\d+\.\d\d) seconds$", s)
            t.check(m and S <= 60 and abs(float(m.group(1)) - S) <= .00501, "pretty_time", lambda: "%r s is shown as %r" % (S, s))
        t.seen(('time', s.count(':'), 'days' in s))


def sec_misc(t):
    rng = t.rng
    n = int(rng.randint(0, 30)); pool = [0, 1, 2, 'a', (1, 2), None, 3.5, True, 'b', -1, ''] + list(range(rng.randint(1, 8)))
    seq = [pool[i] for i in rng.randint(len(pool), size=n)]
    want = []
    for x in seq:
        if not any(x == y for y in want): want.append(x)
    k = list(seq)
    t.check(u.uniquify(seq) == want and seq == k, "uniquify", lambda: "%r -> %r" % (seq, u.uniquify(seq)))
    t.check(u.uniquify(iter(seq)) == want and u.uniquify(tuple(seq)) == want, "uniquify-iterables", "")
    t.seen(('uniquify', n))
    sh = shapes(rng); a = np.zeros(sh) if rng.rand() < .7 else (1. if rng.rand() < .5 else [[1, 2], [3, 4]]); s = np.shape(a)
    for i in range(5):
        t.check(u.safe_shape(a, i) == (s[i] if i < len(s) else 1), "safe_shape", lambda: "%s %d" % (s, i))
        t.check(u.safe_shape(a, i, 7) == (s[i] if i < len(s) else 7), "safe_shape", "")
        t.check(u.safe_shape(a, idx=i, default=None) == (s[i] if i < len(s) else None), "safe_shape", "")
    t.check(u.safe_shape(a) == (s[0] if s else 1), "safe_shape-default", "")
    # significant figures
    x = rng.uniform(1, 9.9, size=rng.randint(1, 6)) * 10. ** rng.randint(-6, 7); sf = int(rng.randint(1, 7))
    sg = rng.choice([-1, 1], size=x.shape); mag = 10. ** np.floor(np.log10(x))
    def ok(y):
        try: u.assert_sigfigs_equal(x, y, sf)
        except AssertionError: return False
        return True
    t.check(ok(x + sg * .3 * mag * 10. ** -sf) and ok(x), "sigfigs-too-strict", lambda: "%r, %d figures" % (x, sf))
    bad = x.copy(); j = rng.randint(len(x)); bad[j] += sg[j] * 3 * mag[j] * 10. ** -sf
    t.check(not ok(bad), "sigfigs-too-lax", lambda: "%r and %r agree to %d figures" % (x, bad, sf))
    try: u.assert_sigfigs_equal(x, x * (1 + 2e-4)); u.assert_sigfigs_equal(x, x * 1.01)
    except AssertionError: pass
    else: t.fail("sigfigs-default", "")
    # decorate_init
    log = []
    def deco(f):
        def g(self, *a, **k): log.append(a); return f(self, *a, **k)
        return g
    @u.decorate_init(deco)
    class P(object):
        def __init__(self, a, b=2): self.v = (a, b)
    class Q(P):
        def __init__(self): super(Q, self).__init__(5, b=6)
    t.check(P(3).v == (3, 2) and Q().v == (5, 6) and log == [(3,), (5,)], "decorate_init", lambda: repr(log))
    t.check(u.check_qutip_version('3.2') and not u.check_qutip_version('99.0') and u.get_qutip_module('99.0') is None and u.get_qutip_module('3.2').__name__ == 'qutip', "qutip-version", "")
    t.seen(('misc', s, sf))


SECTIONS = [Section("simplex", sec_simplex, 250), Section("mvee", sec_mvee, 120), Section("ellipsoid", sec_ellipsoid, 120), Section("matrix", sec_matrix, 200),
            Section("multinomial", sec_multinomial, 160), Section("struct", sec_struct, 200), Section("text", sec_text, 40), Section("misc", sec_misc, 100)]
