"""C11: decorated models = underlying model + stated transformation; everything else passed through."""
import math, copy
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer import derived_models as dm
from mon import gen
from mon.core import Section, Skip
from mon.c09 import flatten

RULE = ("one observation = one decorated-model tensor/metadatum compared with the underlying model; "
        "distinct = (decorator stack, base family, batch-shape class, trivial setting)")
ASSUMPTIONS = ["underlying walks are not applied twice: a random-walk decorator replaces the time step"]


def pair(t, base=None):
    """(decorated spec, underlying model, map experiments -> underlying experiments, kind)."""
    kind = ["binomial", "multinomial", "mle", "mle", "grw", "rw"][t.rng.randint(6)]
    f = dict(binomial=gen.s_binomial, multinomial=gen.s_multinomial, mle=gen.s_mle, grw=gen.s_grw_fixed, rw=gen.s_rw)[kind]
    if kind == "mle" and t.rng.rand() < .5:                    # nesting: power of a decorated model
        base = [gen.s_binomial, gen.s_multinomial, gen.s_grw_fixed, gen.s_mle][t.rng.randint(4)](t.rng)
    elif kind == "binomial" and t.rng.rand() < .3:
        base = gen.s_mle(t.rng, base=gen.TWO_OUTCOME[t.rng.randint(len(gen.TWO_OUTCOME))](t.rng), power=1.0)
    elif kind == "multinomial" and t.rng.rand() < .25:
        base = gen.s_mle(t.rng, base=gen.s_ndie(t.rng), power=1.0)
    s = f(t.rng, base=base) if base is not None else f(t.rng)
    return s, s.base, kind


def sec_transform(t):
    s, b, kind = pair(t)
    m, u = s.model, b.model
    nm, ne = int(t.rng.choice([1, 2, 6])), int(t.rng.choice([1, 2, 4]))
    x = s.mps(t.rng, nm); eps = s.eps(t.rng, ne)
    trivial = kind in ("binomial", "multinomial") and t.rng.rand() < .3
    if trivial: eps['n_meas'] = 1
    t.describe("%s over %s, %d models x %d experiments%s" % (kind, b.name, nm, ne, " (one repetition)" if trivial else ""))
    arr, outs = flatten(s, eps)
    if t.rng.rand() < .5: arr = arr[t.rng.permutation(len(arr))][:t.rng.randint(1, len(arr) + 1)]
    L = m.likelihood(arr, x, eps)
    t.check(np.shape(L) == (len(arr), nm, ne), "shape", "%s" % (np.shape(L),))
    if kind in ("binomial", "multinomial"):
        ue = eps['x'] if 'x' in (eps.dtype.names or ()) else eps
        bo, _ = flatten(b, ue)
        U = u.likelihood(b.arr(bo), x, ue)
        want = np.zeros(L.shape)
        for i, o in enumerate(arr):
            for k in range(ne):
                n = int(eps['n_meas'][k])
                if kind == "binomial":
                    c = [n - int(o), int(o)]
                else:
                    c = [int(v) for v in o['k']]
                if sum(c) != n or min(c) < 0:
                    L[i, :, k] = 0; continue                      # not an outcome of this experiment
                v = float(math.factorial(n))
                for q, cq in enumerate(c):
                    v = v * np.maximum(U[q, :, k], 0) ** cq / math.factorial(cq)
                want[i, :, k] = v
        t.close(L, want, "count-law", rtol=1e-8, atol=1e-11, msg=s.name)
        if trivial:
            for q in range(len(bo)):
                o = s.arr([q]) if kind == "binomial" else s.arr([(tuple(int(i == q) for i in range(len(bo))),)])
                t.close(m.likelihood(o, x, eps)[0], U[q], "one-repetition", rtol=1e-9, atol=1e-12, msg=s.name)
            t.count("trivial-setting comparisons")
    else:
        U = u.likelihood(arr, x, eps)
        want = np.maximum(U, 0) ** s.power if kind == "mle" else U
        t.close(L, want, kind + "-law", rtol=1e-10, atol=1e-13, msg=s.name)
    t.seen((kind, b.name.split('(')[0], nm > 1, ne > 1, trivial), L.size)


def eqdom(a, b):
    return type(a) is type(b) and a.dtype == b.dtype and (not a.is_finite or [str(v) for v in a.values] == [str(v) for v in b.values])


def sec_passthrough(t):
    s, b, kind = pair(t)
    if t.rng.rand() < .3:
        b = gen.lab(t.rng, vary=bool(t.rng.randint(2)), box=1.2, canon=True)
        kind = ["mle", "poisoned", "rw", "grw"][t.rng.randint(4)]
        m = dict(mle=lambda: qi.MLEModel(b.model, 1.5), poisoned=lambda: qi.PoisonedModel(b.model, tol=.1),
                 rw=lambda: qi.RandomWalkModel(b.model, qi.MultivariateNormalDistribution(np.zeros(b.model.n_modelparams), np.eye(b.model.n_modelparams))),
                 grw=lambda: qi.GaussianRandomWalkModel(b.model, fixed_covariance=np.ones(b.model.n_modelparams)))[kind]()
    else:
        m = s.model
    u = b.model
    t.describe("%s over %s" % (kind, b.name))
    t.check(m.underlying_model is u, "underlying", "")
    t.check(m.base_model is u.base_model, "base-model", "")
    t.check(tuple(m.model_chain) == tuple(u.model_chain) + (u,), "model-chain", "%r" % (m.model_chain,))
    t.check(m.n_modelparams == u.n_modelparams, "n_modelparams", "")
    t.check(list(m.modelparam_names) == list(u.modelparam_names), "names", "")
    t.same(m.Q, u.Q, "Q")
    x = b.mps(t.rng, 8)
    wild = x * t.rng.uniform(-1.5, 1.5, x.shape)
    if 'Tomo' in b.name: wild[:, 0] = x[:, 0]                   # unit trace
    t.same(np.asarray(m.are_models_valid(wild)), np.asarray(u.are_models_valid(wild)), "validity")
    t.same(m.canonicalize(wild.copy()), u.canonicalize(wild.copy()), "canonical")
    t.same(m.distance(x, x[::-1]), u.distance(x, x[::-1]), "distance")
    t.check(m.is_model_valid(x[0]) == u.is_model_valid(x[0]), "validity", "single")
    if kind in ("binomial", "multinomial"):
        t.check(m.is_n_outcomes_constant is False or m.is_n_outcomes_constant == False, "constant-outcomes", "")
        e = s.eps(t.rng, 5)
        scalar = isinstance(u.expparams_dtype, str)
        want = ([('x', u.expparams_dtype)] if scalar else list(u.expparams_dtype)) + [('n_meas', 'uint')]
        t.check(list(m.expparams_dtype) == want, "expparams-dtype", "%r" % (m.expparams_dtype,))
        no = np.asarray(m.n_outcomes(e)); dom = m.domain(e)
        for i in range(5):
            n = int(e['n_meas'][i]); k = len(b.outs(None)) if kind == "multinomial" else 2
            t.check(int(no[i]) == math.comb(n + k - 1, k - 1), "outcome-number", "%s for n=%d sides=%d" % (no[i], n, k))
            t.check(dom[i].n_members == int(no[i]), "domain-size", "")
        ue = e['x'] if scalar else e
    else:
        e = b.eps(t.rng, 5); ue = e
        t.check(m.expparams_dtype == u.expparams_dtype, "expparams-dtype", "")
        if kind != "grw":
            t.check(m.is_n_outcomes_constant == u.is_n_outcomes_constant, "constant-outcomes", "%s says %s" % (m, m.is_n_outcomes_constant))
        t.same(np.asarray(m.n_outcomes(e)), np.asarray(u.n_outcomes(e)), "outcome-number")
        d1, d2 = m.domain(e), u.domain(e)
        t.check(len(d1) == len(d2) and all(eqdom(a, c) for a, c in zip(d1, d2)), "domain", "")
        if u.is_n_outcomes_constant:
            t.check(eqdom(m.domain(None), u.domain(None)), "domain-none", "")
        t.check(bool(m.are_expparam_dtypes_consistent(e)) == bool(u.are_expparam_dtypes_consistent(e)), "dtype-consistency", "")
    if kind not in ("rw", "grw") and b.static or kind == "mle" and b.name.startswith("lab"):
        a = m.update_timestep(x.copy(), e); c = u.update_timestep(x.copy(), ue)
        t.same(np.asarray(a), np.asarray(c), "time-step")
    calls = []
    orig = type(u).clear_cache
    u.clear_cache = lambda: calls.append(1)
    m.clear_cache()
    t.check(len(calls) == 1, "clear-cache", "underlying cache cleared %d times" % len(calls))
    del u.clear_cache
    t.seen(("meta", kind, b.name.split('(')[0]), 16)


def sec_wider(t):
    """Decorators over models that carry more parameters than their base model: the wider model is what shows through."""
    rng = t.rng; b = [gen.s_innercoin, gen.s_inversion, gen.s_rb, gen.s_t2, gen.s_tomo][rng.randint(5)](rng); k = b.model.n_modelparams
    if rng.rand() < .7: b.model._Q = rng.uniform(.1, 3, k)       # loss scales of its own
    if rng.rand() < .3:
        u = qi.GaussianHyperparameterizedModel(b.model); hyper = True; extra = 4
        x = np.column_stack([b.mps(rng, 6), rng.normal(size=(6, 2)), rng.uniform(.2, 2, (6, 2))])
    else:
        diag = bool(rng.randint(2)); hyper = False
        u = qi.GaussianRandomWalkModel(b.model, random_walk_idxs='all', diagonal=diag); extra = k if diag else k * (k + 1) // 2
        x = np.column_stack([b.mps(rng, 6), rng.uniform(.1, 1, (6, extra))])
    kind = ["mle", "poisoned", "rw"][rng.randint(3)]
    m = dict(mle=lambda: qi.MLEModel(u, 2.), poisoned=lambda: qi.PoisonedModel(u, tol=.1),
             rw=lambda: qi.RandomWalkModel(u, qi.MultivariateNormalDistribution(np.zeros(k + extra), np.eye(k + extra) * 1e-9)))[kind]()
    what = "%s over %s over %s" % (kind, type(u).__name__, b.name); t.describe(what)
    t.check(m.underlying_model is u and m.base_model is b.model.base_model, "base-model", what)
    t.check(tuple(m.model_chain) == tuple(u.model_chain) + (u,) and u in m.model_chain and b.model in m.model_chain, "model-chain", what)
    t.check(m.n_modelparams == u.n_modelparams == k + extra, "n_modelparams", what)
    t.check(list(m.modelparam_names) == list(u.modelparam_names) and len(m.modelparam_names) == k + extra, "names", what)
    t.same(m.Q, u.Q, "Q"); t.same(m.Q, np.concatenate([b.model.Q, np.ones(extra)]), "Q")
    y = x[rng.permutation(6)]
    t.close(m.distance(x, y), np.abs(x - y) @ np.asarray(u.Q), "distance", rtol=1e-10, atol=1e-12)
    t.same(np.asarray(m.are_models_valid(-x)), np.asarray(u.are_models_valid(-x)), "validity")
    t.same(np.asarray(m.are_models_valid(x)), np.asarray(u.are_models_valid(x)), "validity")
    t.same(m.canonicalize(x.copy()), u.canonicalize(x.copy()), "canonical")
    e = b.eps(rng, 2)
    if kind == "mle":
        o = rng.normal(size=3) if hyper else b.arr(b.outs(e[0]))
        t.close(m.likelihood(o, x, e), u.likelihood(o, x, e) ** 2., "power-law", rtol=1e-9)
    new = m.update_timestep(x.copy(), e)
    t.check(new.shape == (6, k + extra, 2), "time-step", "%s: %s" % (what, new.shape))
    if kind != "rw": t.close(new[:, k:, :], np.repeat(x[:, k:, None], 2, 2), "time-step-extra", rtol=0, atol=0)
    t.seen(("wider", kind, type(u).__name__, b.name.split('(')[0], extra), 14)


def sec_poison(t):
    b = gen.any_spec(t.rng, static=True) if t.rng.rand() < .6 else gen.lab(t.rng, z=(0, 1), vary=False)
    if getattr(b, "unnormalised", False): raise Skip()
    mode = t.rng.randint(2)
    tol = float(t.rng.choice([1e-3, .02, .3])); N = int(t.rng.choice([1, 20, 400])); hedge = float(t.rng.choice([0, .5, 2]))
    if mode == 0: m = qi.PoisonedModel(b.model, tol=tol)
    elif t.rng.rand() < .8: m = qi.PoisonedModel(b.model, n_samples=N, hedge=hedge)
    else: m = qi.PoisonedModel(b.model, n_samples=N); hedge = 0.0
    nm, ne = int(t.rng.choice([1, 3])), int(t.rng.choice([1, 2]))
    x = b.mps(t.rng, nm); eps = b.eps(t.rng, ne)
    arr, outs = flatten(b, eps)
    ok = np.array([[o in b.outs(e) for e in eps] for o in outs])
    L = np.array(b.model.likelihood(arr, x, eps))
    h = hedge
    sd = np.full(L.shape, tol) if mode == 0 else np.sqrt(np.clip(L * (1 - L), 0, None) / (N + 2 * h + 1))
    t.describe("poisoned(%s) %s models=%d experiments=%d" % ("tol=%g" % tol if mode == 0 else "N=%d hedge=%g" % (N, hedge), b.name, nm, ne))
    sel = np.broadcast_to(ok[:, None, :], L.shape).copy()
    flat = np.argwhere(sel)
    def sample(n):
        return np.array([np.array(m.likelihood(arr, x, eps)) for _ in range(n)])
    S = sample(4)
    t.check(S.shape == (4,) + L.shape, "shape", "")
    t.check(S[:, sel].min() >= 0 and S[:, sel].max() <= 1, "range", "[%g, %g]" % (S[:, sel].min(), S[:, sel].max()))
    zero = sel & (sd < 1e-9)
    if zero.any(): t.close(S[0][zero], np.clip(L[zero], 0, 1), "noise-free", atol=1e-6)
    live = sel & (sd > 1e-6)
    if live.any():
        k = max(60, 400 // int(live.sum()))
        def pv(n):
            S = sample(max(20, n // int(live.sum())))
            z = (S - L) / np.where(live, sd, 1)
            lo = st.norm.cdf((0 - L) / np.where(live, sd, 1)); hi = st.norm.cdf((1 - L) / np.where(live, sd, 1))
            u = st.norm.cdf(z)
            # randomise the truncated mass so that the transform is exactly uniform
            r = t.rng.rand(*u.shape)
            u = np.where(S <= 0, r * lo, np.where(S >= 1, hi + r * (1 - hi), u))
            v = u[:, live]
            p = st.kstest(v.ravel(), 'uniform').pvalue
            if v.shape[1] > 1:
                rho = [st.spearmanr(v[:, 0], v[:, j])[1] for j in range(1, min(4, v.shape[1]))]
                p = min(p, np.nanmin(rho) * len(rho))
            return min(1, 2 * p), b.name
        t.stat("noise-law", pv, max(400, 30 * int(live.sum())))
    # simulation is unpoisoned
    state = np.random.get_state(); a = m.simulate_experiment(x, eps, repeat=3)
    np.random.set_state(state); c = b.model.simulate_experiment(x, eps, repeat=3)
    t.check(np.array_equal(a, c), "simulation-poisoned", b.name)
    t.seen(("poison", mode, b.name.split('(')[0], live.any(), nm, ne), S.size)


def sec_hyper(t):
    """Gaussian-hyperparameterised model, including its pass-through of the underlying slice."""
    pool = [gen.s_coin, gen.s_noisy, gen.s_precession, gen.s_rb, gen.s_t2, gen.s_tomo, gen.s_rw]
    b = pool[t.rng.randint(len(pool))](t.rng)
    m = qi.GaussianHyperparameterizedModel(b.model); k = b.model.n_modelparams
    nm, ne = int(t.rng.choice([1, 2, 5])), int(t.rng.choice([1, 3]))
    x = np.column_stack([b.mps(t.rng, nm), t.rng.normal(size=(nm, 2)), t.rng.uniform(.2, 2, (nm, 2))]); eps = b.eps(t.rng, ne)
    if t.rng.rand() < .3: x[:, k + 2:] *= 10. ** t.rng.uniform(-9, 5, (nm, 2))     # sharp and very broad signals
    t.describe("hyper(%s) %d x %d" % (b.name, nm, ne))
    t.check(m.n_modelparams == k + 4 and len(m.modelparam_names) == k + 4 and list(m.modelparam_names[:k]) == list(b.model.modelparam_names), "names", "")
    U = b.model.likelihood(np.array([0, 1]), x[:, :k], eps)
    y = t.rng.normal(size=int(t.rng.choice([1, 4]))) * 2
    if t.rng.rand() < .5:
        j, q = t.rng.randint(nm), t.rng.randint(2); y[0] = x[j, k + q] + t.rng.normal() * math.sqrt(x[j, k + 2 + q])     # a typical signal of one outcome
    L = m.likelihood(y, x, eps)
    want = np.zeros((len(y), nm, ne))
    for i, v in enumerate(y):
        for j in range(nm):
            want[i, j] = sum(U[q, j] * st.norm.pdf(v, x[j, k + q], math.sqrt(x[j, k + 2 + q])) for q in (0, 1))
    t.close(L, want, "hyper-law", rtol=1e-9, msg=b.name)
    t.close(m.underlying_likelihood(np.array([0, 1]), x, eps), U, "underlying-likelihood", rtol=1e-12)
    v = np.asarray(m.are_models_valid(np.vstack([x, np.column_stack([x[:, :k + 2], -x[:, k + 2:]])])))
    t.check(np.array_equal(v, np.concatenate([b.model.are_models_valid(x[:, :k]), np.zeros(nm, bool)])), "validity", "%s" % v)
    for c in (k + 2, k + 3):
        for bad in (-.1, 0.0, -0.0):                             # no density exists at a zero variance
            z = x.copy(); z[:, c] = bad
            t.check(not np.any(m.are_models_valid(z)), "validity", "variance %d of %r accepted" % (c - k - 2, bad))
        z = x.copy(); z[:, c] = 1e-12
        t.check(np.array_equal(m.are_models_valid(z), b.model.are_models_valid(x[:, :k])), "validity", "small variance %d rejected" % (c - k - 2))
    t.same(m.Q, np.concatenate([b.model.Q, np.ones(4)]), "Q")
    t.close(m.distance(x, x + 1.0), np.array([np.sum(b.model.Q) + 4.0] * nm), "distance")
    cx = m.canonicalize(x.copy())
    t.close(cx[:, :k], b.model.canonicalize(x[:, :k].copy()), "canonical"); t.same(cx[:, k:], x[:, k:], "canonical")
    new = m.update_timestep(x.copy(), eps)
    t.check(new.shape == (nm, k + 4, ne), "time-step", "%s" % (new.shape,))
    t.close(new[:, k:, :], np.repeat(x[:, k:, None], ne, 2), "time-step-hyper", rtol=0, atol=0)
    if b.static: t.close(new[:, :k, :], np.repeat(x[:, :k, None], ne, 2), "time-step", rtol=0, atol=0)
    t.check(m.expparams_dtype == b.model.expparams_dtype, "expparams-dtype", "")
    d = m.domain(eps)
    t.check(len(d) == ne and all(isinstance(q, qi.RealDomain) for q in d), "domain", "%r" % (d,))
    t.seen(("hyper", b.name.split('(')[0], nm, ne), 12)


def sec_learned(t):
    """Random walks that learn their covariance: the added parameters do not disturb the likelihood."""
    b = [gen.s_innercoin, gen.s_inversion, gen.s_rb, gen.s_t2, gen.s_tomo][t.rng.randint(5)](t.rng)
    k = b.model.n_modelparams; diag = bool(t.rng.randint(2))
    idx = sorted(t.rng.permutation(k)[:t.rng.randint(1, k + 1)].tolist())
    every = t.rng.rand() < .3
    m = qi.GaussianRandomWalkModel(b.model, random_walk_idxs='all' if every else idx, diagonal=diag)
    nrw = k if every else len(idx)
    extra = nrw if diag else nrw * (nrw + 1) // 2
    t.check(m.n_modelparams == k + extra, "n_modelparams", "%d, expected %d" % (m.n_modelparams, k + extra))
    t.check(list(m.modelparam_names[:k]) == list(b.model.modelparam_names), "names", "")
    # every learned parameter is named after the walking parameters it couples, which the covariance it encodes shows
    which = list(range(k)) if every else idx
    nn = list(m.modelparam_names[k:])
    t.check(len(nn) == extra and len(set(nn)) == extra, "learned-names", "%s" % nn)
    if len(set(b.model.modelparam_names)) == k and not any(p in q for p in b.model.modelparam_names for q in b.model.modelparam_names if p is not q):
        for c in range(extra):
            z = np.zeros((1, k + extra)); z[:, :k] = b.mps(t.rng, 1)
            diagonal = [j for j in range(extra) if diag or j in np.cumsum(np.arange(1, nrw + 1)) - 1]
            z[0, [k + j for j in diagonal]] = 1.0
            z[0, k + c] = 2.0
            C = m.est_update_covariance(z)
            if c in diagonal: touched = {int(i) for i in range(nrw) if abs(C[i, i] - 1) > .5}
            else: touched = {int(i) for i in range(nrw) if np.any(np.abs(np.delete(C[i], i)) > .5)}
            t.check(all(b.model.modelparam_names[which[i]] in nn[c] for i in touched), "learned-names", "entry %d moves the covariance of walking parameters %s but is called %s" % (c, sorted(touched), nn[c]))
    nm, ne = 4, 2
    x = np.column_stack([b.mps(t.rng, nm), t.rng.uniform(.1, 1, (nm, extra))]); eps = b.eps(t.rng, ne)
    o = b.arr(b.outs(eps[0]))
    t.close(m.likelihood(o, x, eps), b.model.likelihood(o, x[:, :k], eps), "walk-law", rtol=1e-12)
    t.check(np.array_equal(m.are_models_valid(x), b.model.are_models_valid(x[:, :k])), "validity", "")
    if diag:
        z = x.copy(); z[:, k + t.rng.randint(extra)] = -.1
        t.check(not np.any(m.are_models_valid(z)), "validity", "negative standard deviation accepted")
    t.same(m.Q, np.concatenate([b.model.Q, np.ones(extra)]), "Q")
    cx = m.canonicalize(x.copy()); t.close(cx[:, :k], b.model.canonicalize(x[:, :k].copy()), "canonical"); t.same(cx[:, k:], x[:, k:], "canonical")
    st0 = np.random.get_state(); a = m.simulate_experiment(x, eps, repeat=3)
    np.random.set_state(st0); c = b.model.simulate_experiment(x[:, :k], eps, repeat=3)
    t.check(np.array_equal(a, c), "simulation", b.name)
    t.describe("learned walk over %s idx=%s diagonal=%s" % (b.name, idx, diag)); t.seen(("learned", b.name.split('(')[0], diag, nrw), 8)


def sec_reject(t):
    die = qi.NDieModel(int(t.rng.randint(3, 7)))
    coin = qi.CoinModel()
    def raises(exc, f, what):
        try: f()
        except exc: return
        t.fail("accepted", what)
    raises(ValueError, lambda: qi.BinomialModel(die), "binomial over a many-outcome model")
    raises(ValueError, lambda: qi.GaussianHyperparameterizedModel(die), "Gaussian signal over a many-outcome model")
    raises(ValueError, lambda: qi.BinomialModel(qi.BinomialModel(coin)), "binomial of binomial")
    raises(ValueError, lambda: qi.PoisonedModel(coin), "no noise given")
    raises(ValueError, lambda: qi.PoisonedModel(coin, tol=.1, n_samples=3), "two noises given")
    raises(TypeError, lambda: qi.RandomWalkModel(die, qi.NormalDistribution(0, 1)), "step of the wrong dimension")
    raises(TypeError, lambda: qi.DifferentiableBinomialModel(gen.s_t2(t.rng).model), "non-differentiable model")
    raises((IndexError, ValueError), lambda: qi.GaussianRandomWalkModel(coin, random_walk_idxs=[]), "empty walk")
    raises(ValueError, lambda: qi.GaussianRandomWalkModel(die, fixed_covariance=np.eye(die.n_modelparams)), "dense covariance for a diagonal walk")
    t.seen(("reject", die.n_modelparams), 9)


class Weighted(qi.FiniteOutcomeModel):
    def __init__(self, k): self.k = k; super(Weighted, self).__init__()
    n_modelparams = property(lambda s: s.k); modelparam_names = property(lambda s: ['p%d' % i for i in range(s.k)])
    expparams_dtype = [('t', float)]; is_n_outcomes_constant = True
    def n_outcomes(self, e): return self.k
    def are_models_valid(self, m): return np.ones(len(m), bool)
    def likelihood(self, outcomes, mps, eps):
        super(Weighted, self).likelihood(outcomes, mps, eps)
        return np.repeat(np.array([mps[:, int(o)] for o in np.ravel(outcomes)])[:, :, None], len(eps), axis=2)


def sec_rare(t):
    """Counts of outcomes that are rare or impossible: the exact multinomial and binomial law still."""
    rng = t.rng; k = int(rng.choice([2, 3, 4])); n = int(rng.choice([1, 3])); ne = int(rng.choice([1, 2]))
    P = rng.dirichlet(np.ones(k), size=n)
    tiny = 10. ** rng.uniform(-14, -4, n); c = rng.randint(k - 1)
    if rng.rand() < .15: tiny[rng.randint(n)] = 0
    P[:, c] = 0; P *= ((1 - tiny) / P.sum(axis=1))[:, None]; P[:, c] = tiny
    m0 = Weighted(k); m = qi.MultinomialModel(m0); N = int(rng.choice([1, 2, 5, 30]))
    e = np.zeros(ne, dtype=m.expparams_dtype); e['n_meas'] = N
    cs = []
    for _ in range(3):
        q = np.ones(k) / k; r = rng.multinomial(N, q)
        if rng.rand() < .7:
            extra = rng.randint(0, min(N, 3) + 1); r = rng.multinomial(N - extra, np.where(np.arange(k) == c, 0, 1.) / (k - 1)); r[c] += extra
        cs.append(r)
    outs = m.domain(e)[0].from_regular_array(np.array(cs))
    L = m.likelihood(outs, P, e)
    want = np.empty((3, n, ne))
    for a, r in enumerate(cs):
        for i in range(n):
            if np.any((r > 0) & (P[i] == 0)): want[a, i] = 0; continue
            want[a, i] = math.exp(math.lgamma(N + 1) + sum(-math.lgamma(x + 1) + (x * math.log(p) if x else 0) for x, p in zip(r, P[i])))
    t.describe(('rare', k, N, P, cs))
    t.check(L.shape == want.shape, "rare-shape", "%s" % (L.shape,)); t.close(L, want, "rare-counts", rtol=1e-7, atol=0)
    if k == 2:
        b = qi.BinomialModel(m0); e = np.zeros(ne, dtype=b.expparams_dtype); e['n_meas'] = N
        P = P[:, ::-1].copy()                   # outcome 1 is the rare one
        os_ = np.array(sorted(set([0, 1, min(N, 2), N]))); L = b.likelihood(os_, P, e)
        want = np.array([[[math.comb(N, int(o)) * P[i, 1] ** int(o) * math.exp((N - int(o)) * math.log1p(-P[i, 1])) for _ in range(ne)] for i in range(n)] for o in os_])
        t.close(L, want, "rare-binomial", rtol=1e-7, atol=1e-300)
    t.seen(('rare', k, N, n, ne), 3 * n * ne)


SECTIONS = [Section("rare", sec_rare, 150), Section("transform", sec_transform, 700), Section("passthrough", sec_passthrough, 500), Section("poison", sec_poison, 160),
            Section("hyper", sec_hyper, 200), Section("learned", sec_learned, 150), Section("wider", sec_wider, 150), Section("reject", sec_reject, 4)]
