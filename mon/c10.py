"""C10: simulated data follow the likelihood, independently, with the right shape and inside the domain."""
import math
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer.domains import IntegerDomain
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one simulated batch checked for shape and domain, or one sequential chi-square/KS test of its "
        "outcome table against the documented law (per model and experiment) or of independence; distinct = (model family, batch shape)")
ASSUMPTIONS = ["an MLE or poisoned decorator simulates the underlying model, as documented"]


class Shifted(gen.LabModel):
    """Lab model whose outcome labels start at 5."""
    OFF = 5
    def domain(self, expparams):
        if expparams is None: return IntegerDomain(min=self.OFF, max=self.OFF + self._K - 1)
        return [IntegerDomain(min=self.OFF, max=self.OFF + n - 1) for n in
                (self.n_outcomes(expparams) if self._vary else [self._K] * len(expparams))]
    def likelihood(self, outcomes, modelparams, expparams):
        return super(Shifted, self).likelihood(np.asarray(outcomes) - self.OFF, modelparams, expparams)


def spec_for(t):
    r = t.rng.rand()
    if r < .2: return gen.lab(t.rng, z=(0, 1, 2))
    if r < .3:
        s = gen.lab(t.rng, z=(0, 1), zero=False); m = s.model
        n = Shifted(m._d, m._K, m._coef, vary=m._vary)
        return gen.Spec("shifted-" + s.name, n, s.mps, s.eps, lambda e: [o + 5 for o in s.outs(e)], lambda o, x, e: m.ref(int(o) - 5, x, e), varies=s.varies)
    if r < .4: return gen.s_tomo(t.rng, diffusive=bool(t.rng.randint(2)))
    if r < .5:
        b = gen.TWO_OUTCOME[t.rng.randint(len(gen.TWO_OUTCOME))](t.rng)
        if t.rng.rand() < .5:
            return gen.Spec("Poisoned(%s)" % b.name, qi.PoisonedModel(b.model, tol=.1), b.mps, b.eps, b.outs, b.pr)
        return gen.s_binomial(t.rng)
    if r < .58:
        s = gen.s_mle(t.rng); s.pr = s.base.pr; return s
    if r < .68: return gen.s_multinomial(t.rng)
    return gen.any_spec(t.rng) if r < .9 else gen.s_binomial(t.rng, nmax=20)


def law(spec):
    return spec.base.pr if spec.name.startswith("MLE") else spec.pr


def keys(spec, data):
    """Outcome labels as plain Python values."""
    if data.dtype.names:
        f = data[data.dtype.names[0]]
        return [tuple(int(v) for v in row) for row in f.reshape(-1, f.shape[-1])]
    return [int(v) for v in data.ravel()]


def label(o):
    return o[0] if isinstance(o, tuple) else int(o)


def sec_shape(t):
    spec = spec_for(t); m = spec.model
    nm, ne, rep = [int(t.rng.choice([1, 1, 2, 4])) for _ in range(3)]
    if t.rng.rand() < .12: nm, rep = int(t.rng.choice([25, 60])), 1          # many particles, as when hypothetical data are drawn
    x = spec.mps(t.rng, nm); eps = spec.eps(t.rng, ne)
    bx, be = x.tobytes(), eps.tobytes()
    d = m.simulate_experiment(x, eps, repeat=rep) if rep > 1 or t.rng.rand() < .5 else m.simulate_experiment(x, eps)
    t.check(x.tobytes() == bx and eps.tobytes() == be, "input-modified", spec.name)
    t.describe("%s repeat=%d models=%d experiments=%d" % (spec.name, rep, nm, ne))
    if nm == ne == rep == 1:
        t.check(np.ndim(d) == 0, "scalar", "%s: single datum has shape %s" % (spec.name, np.shape(d)))
        d = np.array(d).reshape(1, 1, 1)
    else:
        t.check(np.shape(d) == (rep, nm, ne), "shape", "%s: %s expected %s" % (spec.name, np.shape(d), (rep, nm, ne)))
    for k in range(ne):
        dom = m.domain(eps[k:k + 1])[0]
        t.check(bool(np.all(dom.in_domain(d[:, :, k].ravel()))), "outside-domain", "%s: %s" % (spec.name, d[:, :, k].ravel()[:5]))
        ok = set(label(o) for o in spec.outs(eps[k]))
        t.check(set(keys(spec, d[:, :, k])) <= ok, "outside-outcomes", "%s: %s not in %s" % (spec.name, set(keys(spec, d[:, :, k])) - ok, ok))
        t.check(np.dtype(dom.dtype) == np.asarray(d).dtype, "dtype", "%s: data %s, domain %s" % (spec.name, np.asarray(d).dtype, dom.dtype))
    # impossible outcomes never occur
    for k in range(ne):
        for j in range(nm):
            for o in set(keys(spec, d[:, j, k])):
                oo = spec.arr([(o,)])[0] if getattr(spec, "odtype", None) is not None else o
                t.check(law(spec)(oo, x[j], eps[k]) > 0, "impossible-outcome", "%s: outcome %s" % (spec.name, o))
    t.seen((spec.name.split('(')[0], nm, ne, rep), d.size); t.count("outcomes checked", d.size)


def chi(keys_, outs, p):
    n = len(keys_); c = {}
    for k in keys_: c[k] = c.get(k, 0) + 1
    o = np.array([c.get(label(v), 0) for v in outs], float); e = np.array(p) * n
    if np.any(o[e < 1e-12] > 0): return 0.0
    big = e >= 5
    if (~big).any():
        os_, es = o[~big].sum(), e[~big].sum()
        if es > 5: o, e = np.append(o[big], os_), np.append(e[big], es)
        else:
            # too rare for chi-square: exact Poisson tail guards the rest
            q = st.poisson.sf(os_ - 1, es + 1e-9) if os_ > 0 else 1.0
            if q < 1e-12: return float(q)
            o, e = o[big], e[big]
    if len(o) < 2: return 1.0
    return float(st.chisquare(o, e * o.sum() / e.sum()).pvalue)


def sec_law(t):
    spec = spec_for(t); m = spec.model
    nm, ne = [int(t.rng.choice([1, 2, 3])) for _ in range(2)]
    x = spec.mps(t.rng, nm); eps = spec.eps(t.rng, ne)
    if nm > 1 and t.rng.rand() < .3: x[1] = x[0]               # equal models must still draw separately
    if ne > 1 and t.rng.rand() < .3: eps[1] = eps[0]
    outs = [spec.outs(e) for e in eps]
    P = [[[min(max(law(spec)(spec.arr([o])[0], x[j], eps[k]), 0), 1) for o in outs[k]] for j in range(nm)] for k in range(ne)]
    mode = int(t.rng.choice([0, 0, 0, 1, 2]))
    t.describe("%s models=%d experiments=%d mode=%d" % (spec.name, nm, ne, mode))
    def draw(n):
        if mode == 1 or n == 1:                                  # many short calls
            k = max(1, n // 100)
            c = [np.asarray(m.simulate_experiment(x, eps, repeat=k)).reshape(k, nm, ne) for _ in range(max(1, n // k))]
            return np.concatenate(c)
        return np.asarray(m.simulate_experiment(x, eps, repeat=n)).reshape(n, nm, ne)
    def pv(n):
        d = draw(n); worst = 1.0; where = None
        for k in range(ne):
            for j in range(nm):
                p = chi(keys(spec, d[:, j, k]), outs[k], P[k][j])
                if p < worst: worst, where = p, (j, k)
        return min(1.0, worst * nm * ne), "%s model %s" % (spec.name, where)
    t.stat("outcome-law", pv, 400 if mode == 0 else 300)
    # independence between repetitions, models and experiments
    flag = lambda a: np.array([v == label(outs[0][0]) for v in keys(spec, a)], float)
    def ind(n):
        d = draw(n)
        base = np.array([[flag(d[:, j, k]) for k in range(ne)] for j in range(nm)])
        pairs = []
        for j in range(nm):
            for k in range(ne):
                pairs.append((base[j, k][1:], base[j, k][:-1], "successive repetitions"))
                if j: pairs.append((base[j, k], base[0, k], "models"))
                if k: pairs.append((base[j, k], base[j, 0], "experiments"))
                if j and k: pairs.append((base[j, k], base[0, 0], "models and experiments"))
        worst, what = 1.0, ""
        for a, b, w in pairs:
            if min(a.sum(), b.sum(), (1 - a).sum(), (1 - b).sum()) < 8: continue
            tab = np.array([[(a * b).sum(), (a * (1 - b)).sum()], [((1 - a) * b).sum(), ((1 - a) * (1 - b)).sum()]])
            if st.contingency.expected_freq(tab).min() < 5: continue
            p = st.chi2_contingency(tab, correction=True)[1]
            if p < worst: worst, what = p, w
        return min(1.0, worst * len(pairs)), "%s: dependence between %s" % (spec.name, what)
    t.stat("independence", ind, 500)
    t.seen((spec.name.split('(')[0], nm, ne, mode), 2)


def sec_gauss(t):
    spec = gen.s_gauss(t.rng); m = spec.model; k = spec.k; b = spec.base
    nm, ne = int(t.rng.choice([1, 2])), int(t.rng.choice([1, 3]))
    x = spec.mps(t.rng, nm); eps = spec.eps(t.rng, ne)
    t.describe("%s models=%d experiments=%d" % (spec.name, nm, ne))
    d = m.simulate_experiment(x, eps, repeat=3)
    t.check(np.shape(d) == (3, nm, ne), "shape", "%s" % (np.shape(d),))
    t.check(np.ndim(m.simulate_experiment(x[:1], eps[:1])) == 0, "scalar", spec.name)
    def pv(n):
        d = m.simulate_experiment(x, eps, repeat=n); worst = 1.0
        for j in range(nm):
            for q in range(ne):
                p1 = b.pr(1, x[j, :k], eps[q])
                cdf = lambda y: (1 - p1) * st.norm.cdf(y, x[j, k], math.sqrt(x[j, k + 2])) + p1 * st.norm.cdf(y, x[j, k + 1], math.sqrt(x[j, k + 3]))
                worst = min(worst, st.kstest(d[:, j, q], cdf).pvalue)
        return min(1, worst * nm * ne), spec.name
    t.stat("outcome-law", pv, 400)
    def ind(n):
        d = m.simulate_experiment(x, eps, repeat=n); f = d.reshape(n, -1); ps = []
        f = f + 0
        for c in range(f.shape[1]):
            ps.append(st.spearmanr(f[1:, c], f[:-1, c])[1])
            if c: ps.append(st.spearmanr(f[:, c], f[:, 0])[1])
        return min(1, np.nanmin(ps) * len(ps)), spec.name
    t.stat("independence", ind, 300)
    t.seen(("gauss", spec.name, nm, ne), 4)


def sec_large(t):
    """Counts of very many repetitions: far more than any small integer type holds."""
    multi = t.rng.rand() < .5
    spec = gen.s_multinomial(t.rng) if multi else gen.s_binomial(t.rng)
    if multi and t.rng.rand() < .5: spec = gen.s_multinomial(t.rng, base=gen.s_ndie(t.rng))
    m, b = spec.model, spec.base
    nm, ne = int(t.rng.choice([1, 2])), int(t.rng.choice([1, 2]))
    x, eps = spec.mps(t.rng, nm), spec.eps(t.rng, ne)
    eps['n_meas'] = t.rng.choice([120, 200, 300, 1000, 33000, 70000, 1000000], ne)
    if multi: eps['n_meas'] = eps['n_meas'][0]
    strip = spec.strip
    t.describe("%s n_meas=%s" % (spec.name, eps['n_meas']))
    sides = getattr(spec, 'sides', 2)
    P = np.array([[[min(max(b.pr(o, x[j], strip(eps[k])), 0), 1) for o in (range(sides) if multi else (1,))] for j in range(nm)] for k in range(ne)])
    d = np.asarray(m.simulate_experiment(x, eps, repeat=3)).reshape(3, nm, ne)
    for k in range(ne):
        N = int(eps['n_meas'][k])
        for q in d[:, :, k].ravel():
            c = [int(v) for v in q[d.dtype.names[0]]] if d.dtype.names else [int(q)]
            t.check(min(c) >= 0 and (sum(c) == N if multi else c[0] <= N), "outside-domain", "%s: %s of %d repetitions" % (spec.name, c, N))
        t.check(bool(np.all(m.domain(eps[k:k + 1])[0].in_domain(d[:, :, k].ravel()))), "outside-domain", spec.name)
    def pv(n):
        d = np.asarray(m.simulate_experiment(x, eps, repeat=n)).reshape(n, nm, ne); ps = []
        for k in range(ne):
            N = int(eps['n_meas'][k])
            for j in range(nm):
                c = d[:, j, k]
                c = c[d.dtype.names[0]].reshape(n, -1) if d.dtype.names else c.reshape(n, 1)
                for i in range(c.shape[1]):
                    p = P[k, j, i]
                    if p * N < 1e-9 or (1 - p) * N < 1e-9:
                        if np.any(np.abs(c[:, i] - p * N) > 1e-3): return 0., "%s: %s" % (spec.name, c[:3, i])
                        continue
                    f = st.binom(N, p); u = f.cdf(c[:, i] - 1) + t.rng.rand(n) * f.pmf(c[:, i])
                    ps.append(st.kstest(u, 'uniform').pvalue)
        return (min(1., min(ps) * len(ps)) if ps else 1.), "%s n_meas=%s" % (spec.name, eps['n_meas'])
    t.stat("count-law", pv, 150)
    t.seen(("large", spec.name.split('(')[0], nm, ne, [int(np.log10(v)) for v in eps['n_meas']]), 2)


def sec_rare(t):
    """Outcomes of small (and nearly certain) probability come up exactly as often as they should."""
    p = float(10 ** t.rng.uniform(-3.5, -1.7)); k = t.rng.randint(5)
    N = int(min(60 / p, 100000))
    if k == 0:
        m = qi.CoinModel(); x = np.array([[p]]); e = np.zeros(1, dtype=m.expparams_dtype)
        P = {0: p, 1: 1 - p}                                     # the coin's parameter is its chance of outcome 0
    elif k in (1, 2):
        s = int(t.rng.randint(2, 7)); m = qi.NDieModel(s); v = t.rng.dirichlet(np.ones(s)); j = t.rng.randint(s); v[j] = 0; v = v / v.sum() * (1 - p); v[j] = p
        x = v[None]; e = np.zeros(1, dtype=m.expparams_dtype); P = dict(enumerate(v))
    elif k == 3:
        m = qi.SimplePrecessionModel(); x = np.array([[2 * np.arcsin(np.sqrt(p))]]); e = np.ones(1)
        if t.rng.rand() < .5: x = np.pi - x
        q = float(np.sin(x[0, 0] / 2) ** 2); P = {0: 1 - q, 1: q}
    else:
        b = qi.CoinModel(); m = qi.BinomialModel(b); n = int(t.rng.choice([1, 2, 5])); e = np.zeros(1, dtype=m.expparams_dtype); e['n_meas'] = n
        x = np.array([[1 - p]] if t.rng.rand() < .5 else [[p]])
        P = {c: float(st.binom.pmf(c, n, 1 - x[0, 0])) for c in range(n + 1)}
    t.describe("%s p=%g" % (type(m).__name__, p))
    two = t.rng.rand() < .3                                      # next to another model
    xs = np.vstack([x, x]) if two else x
    def pv(n):
        d = np.asarray(m.simulate_experiment(xs, e, repeat=n)).reshape(n, -1)[:, -1]
        c = np.bincount(d.astype(int), minlength=max(P) + 1)
        if len(c) > max(P) + 1: return 0., "outcome %d" % (len(c) - 1)
        ps = [st.binomtest(int(c[o]), n, min(max(q, 0.), 1.)).pvalue for o, q in P.items()]
        return min(1., min(ps) * len(ps)), "counts %s of %d for probabilities %s" % (c, n, P)
    t.stat("rare-outcome-law", pv, N, growth=2)
    t.seen(("rare", type(m).__name__, int(np.log10(p)), two))


SECTIONS = [Section("shape", sec_shape, 900), Section("law", sec_law, 400), Section("gaussian", sec_gauss, 60), Section("large", sec_large, 40), Section("rare", sec_rare, 12)]
