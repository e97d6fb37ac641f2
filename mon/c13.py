"""C13: scores are gradients of the log-likelihood; Fisher information is their outer-product expectation."""
import math
import numpy as np
import qinfer as qi
from qinfer.abstract_model import DifferentiableModel
from qinfer.finite_difference import FiniteDifference
from mon import gen
from mon.core import Section, Skip
from mon.c09 import flatten

RULE = ("one observation = one score or Fisher tensor compared with high-order differences of the reference law; "
        "distinct = (model, analytic or numeric, batch-shape class, edge of the parameter range)")
ASSUMPTIONS = ["points where an outcome's probability is below 1e-3 or the law is not differentiable are not judged",
               "numeric scores are judged within the accuracy of their documented step size"]

STENCIL = [(-3, -1 / 60.), (-2, 3 / 20.), (-1, -3 / 4.), (1, 3 / 4.), (2, -3 / 20.), (3, 1 / 60.)]


def grad(pr, o, x, e, h=1e-3):
    g = np.zeros(len(x))
    for i in range(len(x)):
        for k, c in STENCIL:
            y = np.array(x, float); y[i] += k * h
            g[i] += c * pr(o, y, e)
        g[i] /= h
    return g


def reference(spec, arr, x, eps):
    d = x.shape[1]
    G = np.zeros((d, len(arr), len(x), len(eps))); P = spec.table(arr, x, eps)
    for i, o in enumerate(arr):
        for j in range(len(x)):
            for k in range(len(eps)):
                G[:, i, j, k] = grad(spec.pr, o, x[j], eps[k])
    return G, P


def make(t):
    s = [gen.s_precession, gen.s_inversion, gen.s_coin, lambda r: gen.s_rb(r, il=False), lambda r: gen.s_rb(r, il=True)][t.rng.randint(5)](t.rng)
    nm, ne = int(t.rng.choice([1, 2, 5])), int(t.rng.choice([1, 2, 4]))
    x = s.mps(t.rng, nm); e = s.eps(t.rng, ne)
    if s.name.startswith("Coin"): x = np.clip(x, .01, .99)
    if s.name.startswith("RB"):
        e['m'][t.rng.rand(ne) < .35] = t.rng.randint(0, 2)        # m = 0 and m = 1
        x = np.clip(x, .02, .98)
    if s.name.startswith("SimpleInversion"): pass
    return s, x, e


def full(q):
    q = np.asarray(q)
    return q[None] if q.ndim == 3 else q


def sec_analytic(t):
    s, x, e = make(t); m = s.model
    arr = np.array([0, 1]) if t.rng.rand() < .6 else np.array([[1], [0], [1, 0], [0, 1, 1]][t.rng.randint(4)])
    if t.rng.rand() < .3: arr = arr.astype('uint')
    t.describe("%s %d x %d outcomes %s" % (s.name, len(x), len(e), arr))
    x0, e0 = x.copy(), e.copy()
    q, L = m.score(arr, x, e, return_L=True)
    q1 = m.score(arr, x, e)
    t.same(np.asarray(q), np.asarray(q1), "return_L-changes-score")
    t.same(x, x0, "modified-input"); t.same(e, e0, "modified-input")
    t.close(np.asarray(L), m.likelihood(arr, x, e), "returned-likelihood", rtol=1e-12, atol=1e-14, msg=s.name)
    q = full(q)
    t.check(q.shape == (x.shape[1], len(arr), len(x), len(e)), "shape", "%s" % (q.shape,))
    G, P = reference(s, arr, x, e)
    ok = np.broadcast_to(P > 1e-3, q.shape)
    if not ok.any(): raise Skip()
    want = G / np.where(P > 1e-3, P, 1)
    t.close(np.where(ok, q, 0), np.where(ok, want, 0), "score", rtol=1e-6, atol=1e-6, msg=s.name)
    t.seen((s.name, len(x) > 1, len(e) > 1, len(arr), 'm' in (e.dtype.names or ()) and bool((e['m'] == 0).any())), int(ok.sum()))
    t.count("score entries", ok.sum())
    # entries depend only on their own triple
    i, j, k = t.rng.randint(len(arr)), t.rng.randint(len(x)), t.rng.randint(len(e))
    if P[i, j, k] > 1e-3:
        one = full(m.score(arr[i:i + 1], x[j:j + 1], e[k:k + 1]))
        t.close(one[:, 0, 0, 0], q[:, i, j, k], "score-entry", rtol=1e-9, atol=1e-9, msg=s.name)


def fi_ref(s, x, e):
    outs = s.outs(e[0])
    G, P = reference(s, np.array(outs), x, e)
    if P.min() < 1e-3: return None
    return np.einsum('iome,jome->ijme', G / P, G)


def sec_fisher(t):
    s, x, e = make(t); m = s.model
    binom = t.rng.rand() < .35
    F = fi_ref(s, x, e)
    if F is None: raise Skip()
    if binom:
        m = qi.DifferentiableBinomialModel(s.model)
        be = np.zeros(len(e), dtype=m.expparams_dtype); be['n_meas'] = t.rng.randint(1, 30, len(e))
        if 'x' in be.dtype.names: be['x'] = e
        else:
            for f in e.dtype.names: be[f] = e[f]
        F = F * be['n_meas']; e = be
    t.describe("Fisher information of %s%s" % ("binomial " if binom else "", s.name))
    got = m.fisher_information(x, e)
    t.close(got, F, "fisher", rtol=1e-5, atol=1e-6, msg=s.name)
    t.check(np.abs(got - got.transpose(1, 0, 2, 3)).max() <= 1e-9 * max(1, np.abs(got).max()), "symmetric", s.name)
    w = np.linalg.eigvalsh(got.transpose(2, 3, 0, 1))
    t.check(w.min() >= -1e-9 * max(1, np.abs(w).max()), "psd", "%g" % w.min())
    if s.name == "SimplePrecession":
        tt = e['x'] if binom else e
        t.close(got[0, 0], np.repeat((tt ** 2 * (e['n_meas'] if binom else 1))[None], len(x), 0), "analytic", rtol=1e-6, atol=1e-8)
    if s.name == "Coin":
        t.close(got[0, 0], np.repeat(1 / (x * (1 - x)), len(e), 1) * (e['n_meas'] if binom else 1), "analytic", rtol=1e-8)
    t.seen(("fi", s.name, binom, len(x) > 1, len(e) > 1), got.size)
    j, k = t.rng.randint(len(x)), t.rng.randint(len(e))
    t.close(m.fisher_information(x[j:j + 1], e[k:k + 1])[:, :, 0, 0], got[:, :, j, k], "fisher-entry", rtol=1e-9, atol=1e-9)


def numeric(cls, **kw):
    return type("Num" + cls.__name__, (qi.ScoreMixin, cls, DifferentiableModel), kw)


def sec_numeric(t):
    which = t.rng.randint(6); h = None
    if which == 0: s = gen.s_t2(t.rng); cls = qi.UnknownT2Model; m = numeric(cls)()
    elif which == 1: s = gen.s_noisy(t.rng); cls = qi.NoisyCoinModel; m = numeric(cls)()
    elif which == 2: s = gen.s_coin(t.rng); m = numeric(qi.CoinModel)()
    elif which == 3: s = gen.s_rb(t.rng, il=False); m = numeric(qi.RandomizedBenchmarkingModel)()
    else:
        s = gen.lab(t.rng, zero=False, step=False, z=(0,)); b = s.model
        m = numeric(gen.LabModel)(b._d, b._K, b._coef, vary=b._vary)
    if t.rng.rand() < .5:
        h = 10.0 ** t.rng.uniform(-8, -4.5)
        type(m)._h = h if t.rng.rand() < .5 else h * t.rng.uniform(.5, 2, m.n_modelparams)
        if m.n_modelparams == 1: type(m)._h = h
    hh = np.asarray(m.h)
    t.check(hh.shape == (m.n_modelparams,), "h-shape", "%s" % (hh.shape,))
    nm, ne = int(t.rng.choice([1, 2, 4])), int(t.rng.choice([1, 2, 3]))
    x = s.mps(t.rng, nm); e = s.eps(t.rng, ne)
    if which in (1, 2): x = np.clip(x, .05, .95)
    arr, outs = flatten(s, e)
    ok = np.array([[o in s.outs(v) for v in e] for o in outs])[:, None, :]
    if getattr(s, 'varies', False) and ne > 1:
        common = [i for i in range(len(outs)) if ok[i].all()]; arr = arr[common]; outs = [outs[i] for i in common]
    x0 = x.copy()
    q, L = m.score(arr, x, e, return_L=True)
    t.same(x, x0, "modified-input")
    t.close(L, m.likelihood(arr, x, e), "returned-likelihood", rtol=1e-12, atol=1e-14)
    q = full(q); G, P = reference(s, arr, x, e)
    t.check(q.shape == G.shape, "shape", "%s vs %s" % (q.shape, G.shape))
    good = np.broadcast_to(P > 1e-2, q.shape)
    if not good.any(): raise Skip()
    err = 30 * (2e-16 / hh.min() + 40 * hh.max() ** 2) / 1e-2 + 1e-7
    t.close(np.where(good, q, 0), np.where(good, G / np.where(P > 1e-2, P, 1), 0), "numeric-score", rtol=1e-5, atol=err, msg="%s h=%s" % (s.name, hh))
    t.describe("numeric score of %s h=%s" % (s.name, h)); t.seen(("num", s.name.split('(')[0], nm > 1, ne > 1, h is None), int(good.sum()))
    # Fisher information by the generic rule, including experiment-dependent outcome numbers
    F = np.zeros((x.shape[1],) * 2 + (nm, ne)); bad = False
    for k in range(ne):
        o = np.array(s.outs(e[k])); Gk, Pk = reference(s, o, x, e[k:k + 1])
        if Pk.min() < 1e-3: bad = True
        F[..., k] = np.einsum('iom,jom->ijm', (Gk / np.maximum(Pk, 1e-12))[..., 0], Gk[..., 0])
    if not bad:
        got = m.fisher_information(x, e)
        sc = np.abs(F).max() + 1
        t.close(got, F, "numeric-fisher", rtol=1e-4, atol=err * sc * 20, msg=s.name)
        t.seen(("numfi", s.name.split('(')[0], nm > 1, ne > 1), F.size)


def sec_fd(t):
    n = int(t.rng.randint(1, 6)); A = t.rng.normal(size=(n, n)); b = t.rng.normal(size=n); c = t.rng.normal(size=n)
    f = lambda x: float(x @ A @ x + b @ x + np.sum(np.sin(c * x)))
    g = lambda x: (A + A.T) @ x + b + c * np.cos(c * x)
    x = t.rng.normal(size=n); x0 = x.copy()
    h = 1e-5 if t.rng.rand() < .4 else 10.0 ** t.rng.uniform(-6, -4, n)
    fd = FiniteDifference(f, n, h)
    t.close(fd(x), g(x), "finite-difference", rtol=1e-5, atol=1e-5); t.close(fd.central(x), fd(x), "call", rtol=0, atol=0)
    t.same(x, x0, "modified-input")
    t.close(FiniteDifference(f, n)(x), g(x), "finite-difference-default", rtol=1e-3, atol=1e-3)
    t.describe("n=%d" % n); t.seen(("fd", n, np.ndim(h)), n)


def sec_misc(t):
    m = qi.DifferentiableBinomialModel(qi.CoinModel())
    t.check(isinstance(m, DifferentiableModel), "differentiable", "")
    e = np.zeros(1, dtype=m.expparams_dtype); e['n_meas'] = 3
    try: m.score(np.array([0]), np.array([[.5]]), e)
    except NotImplementedError: pass
    else: t.fail("score-of-binomial", "documented as not implemented")
    t.seen(("misc",))


def sec_edges(t):
    """Randomized benchmarking at a depolarising parameter of exactly zero or one, short and long sequences."""
    rng = t.rng; il = rng.rand() < .5; n, ne = int(rng.choice([1, 4])), int(rng.choice([1, 5]))
    m = qi.RandomizedBenchmarkingModel(interleaved=il)
    p = rng.choice([0., 1., .5, .93], size=(n, 1 + il)); p[rng.randint(n), rng.randint(1 + il)] = rng.choice([0., 0., 1.])
    A = rng.uniform(.1, .45, n); B = rng.uniform(.1, .45, n); mp = np.c_[p, A, B]
    e = np.zeros(ne, dtype=m.expparams_dtype); e['m'] = rng.choice([0, 1, 2, 3, 50, 5000], size=ne)
    if il: e['reference'] = rng.rand(ne) < .5
    outs = np.array([[0, 1], [1, 0], [1], [0]][rng.randint(4)])
    s = m.score(outs, mp, e)
    t.describe(('edges', il, mp, e))
    def d(x, k): return 0. if k == 0 else k * float(x) ** (k - 1)            # derivative of x^k, with 0^0 = 1
    want = np.empty((3 + il, len(outs), n, ne))
    for i in range(n):
        for j in range(ne):
            k = int(e['m'][j]); a, b = A[i], B[i]
            if il:
                x, y = p[i]
                if e['reference'][j]: q, g = y ** k, [0., d(y, k)]
                else: q, g = (x ** k) * (y ** k), [d(x, k) * y ** k, x ** k * d(y, k)]
            else: q, g = p[i, 0] ** k, [d(p[i, 0], k)]
            f = a * q + b; G = np.array([a * v for v in g] + [q, 1.])
            for r, o in enumerate(outs): want[:, r, i, j] = G / f if o == 1 else -G / (1 - f)
    t.close(s, want, "score-at-the-edge", rtol=1e-7, atol=1e-10)
    F = m.fisher_information(mp, e)
    t.check(np.all(np.isfinite(F)), "information-at-the-edge", "")
    t.seen((il, n > 1, ne > 1, len(outs), bool((p == 0).any()), bool((p == 1).any()), int(e['m'].min()), int(e['m'].max())), want.size)


SECTIONS = [Section("edges", sec_edges, 200), Section("analytic", sec_analytic, 600), Section("fisher", sec_fisher, 500), Section("numeric", sec_numeric, 400),
            Section("finite-difference", sec_fd, 100), Section("misc", sec_misc, 1)]
