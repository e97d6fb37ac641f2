"""C09: likelihood tensors are normalised, in range, entrywise, and follow the documented formulas."""
import math, inspect
import numpy as np
import scipy.integrate as si
import qinfer as qi
from qinfer import rb
from qinfer.abstract_model import FiniteOutcomeModel
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one likelihood tensor checked against the documented formula, row sums, range and per-entry "
        "independence; distinct = (model family, tensor shape class, edge parameters)")
ASSUMPTIONS = ["outcomes outside an experiment's domain are not judged"]


def flatten(spec, eps):
    """Union of the outcomes of the experiments, as an array of the model's outcome type."""
    outs = []
    for e in eps:
        for o in spec.outs(e):
            if o not in outs: outs.append(o)
    return spec.arr(outs), outs


def member(spec, o, e):
    return o in spec.outs(e)


def edges(t, spec, x):
    """Push some parameters to the boundary of validity."""
    y = np.array(x)
    if spec.name.startswith(("Coin", "NoisyCoin")): y[t.rng.rand(*y.shape) < .4] = t.rng.randint(2)
    elif spec.name.startswith("RB"):
        k = y.shape[1]
        for row in y:
            c = t.rng.randint(5)
            if c == 0: row[:k - 2] = 1
            elif c == 1: row[:k - 2] = 0
            elif c == 2: row[k - 2], row[k - 1] = 1, 0
            elif c == 3: row[k - 2], row[k - 1] = 0, t.rng.randint(2)
            else: row[t.rng.randint(k - 2)] = t.rng.randint(2)
    elif spec.name.startswith("UnknownT2"): y[t.rng.rand(*y.shape) < .4] = 0
    elif spec.name.startswith("NDie"):
        for row in y:
            if t.rng.rand() < .5: row[:] = 0; row[t.rng.randint(len(row))] = 1
    else: return x, False
    return y, True


def sec_table(t):
    spec = gen.any_spec(t.rng) if t.rng.rand() < .8 else gen.s_tomo(t.rng, diffusive=bool(t.rng.randint(2)))
    nm, ne = int(t.rng.choice([1, 2, 7])), int(t.rng.choice([1, 2, 5]))
    x = spec.mps(t.rng, nm); eps = spec.eps(t.rng, ne); edge = False
    if t.rng.rand() < .35: x, edge = edges(t, spec, x)
    m = spec.model
    t.describe("%s: %d models x %d experiments, edge=%s" % (spec.name, nm, ne, edge))
    arr, outs = flatten(spec, eps)
    ok = np.array([[member(spec, o, e) for e in eps] for o in outs])
    L = m.likelihood(arr, x.copy(), eps.copy())
    t.check(isinstance(L, np.ndarray) and L.shape == (len(outs), nm, ne), "shape", "%s expected %s" % (np.shape(L), (len(outs), nm, ne)))
    ref = spec.table(arr, x, eps)
    sel = np.broadcast_to(ok[:, None, :], L.shape)
    t.close(np.where(sel, L, 0), np.where(sel, ref, 0), "documented-law", rtol=1e-8, atol=1e-10, msg=spec.name)
    t.check(np.all(np.isfinite(L[sel])) and L[sel].min() >= -1e-12 and L[sel].max() <= 1 + 1e-9, "range", "%s: [%g, %g]" % (spec.name, L[sel].min(), L[sel].max()))
    if not getattr(spec, "unnormalised", False):
        t.close(np.where(sel, L, 0).sum(0), np.ones((nm, ne)), "row-sum", rtol=1e-9, atol=1e-9, msg=spec.name)
        # the model's own domain
        for k in range(ne):
            dom = m.domain(eps[k:k + 1])
            t.check(len(dom) == 1, "domain-list", "")
            vals = dom[0].values
            Lk = m.likelihood(vals, x, eps[k:k + 1])
            t.close(Lk.sum(0)[:, 0], np.ones(nm), "domain-sum", rtol=1e-9, atol=1e-9, msg="%s: domain of %d values" % (spec.name, len(vals)))
            t.check(len(vals) == len(spec.outs(eps[k])), "domain-size", "%s: %d values, %d outcomes" % (spec.name, len(vals), len(spec.outs(eps[k]))))
            no = m.n_outcomes(eps[k:k + 1])
            t.check(int(np.ravel(no)[0]) == len(vals), "n_outcomes", "%s says %r, domain has %d" % (spec.name, no, len(vals)))
        ds = m.domain(eps)
        t.check(len(ds) == ne and [len(d.values) for d in ds] == [len(spec.outs(e)) for e in eps], "domain-per-experiment", spec.name)
        if m.is_n_outcomes_constant:
            t.check(len(set(len(spec.outs(e)) for e in eps)) == 1, "constant-outcomes", spec.name)
    t.seen((spec.name.split('(')[0], nm > 1, ne > 1, edge), L.size); t.count("entries compared", sel.sum())
    # each entry depends only on its own triple
    oi, mi, ei = [t.rng.permutation(n)[:t.rng.randint(1, n + 1)] for n in L.shape]
    if t.rng.rand() < .3: oi = np.append(oi, oi[:1]); mi = np.append(mi, mi[:1]); ei = np.append(ei, ei[:1])
    sub = m.likelihood(arr[oi], x[mi], eps[ei])
    good = sel[np.ix_(oi, mi, ei)]
    t.close(np.where(good, sub, 0), np.where(good, L[np.ix_(oi, mi, ei)], 0), "entry-independence", rtol=1e-10, atol=1e-13, msg=spec.name)
    a, b, c = [int(t.rng.randint(n)) for n in L.shape]
    if sel[a, b, c]:
        one = m.likelihood(arr[a:a + 1], x[b:b + 1], eps[c:c + 1])
        t.check(one.shape == (1, 1, 1), "shape", "single: %s" % (one.shape,))
        t.close(one[0, 0, 0], L[a, b, c], "single-entry", rtol=1e-10, atol=1e-13, msg=spec.name)
    t.close(m.likelihood(arr, x, eps)[sel], L[sel], "repeatable", rtol=1e-12, atol=1e-15)
    t.seen((spec.name.split('(')[0], "independence", len(oi), len(mi), len(ei)), 2)


def sec_valid(t):
    """Whatever the model calls valid has probabilities."""
    spec = [gen.s_coin, gen.s_noisy, gen.s_ndie, gen.s_rb, gen.s_t2, gen.s_precession, gen.s_inversion][t.rng.randint(7)](t.rng)
    k = spec.model.n_modelparams
    x = t.rng.choice([0, .25, .5, .75, 1.0, 0.1, 0.9], size=(60, k)) + (t.rng.rand(60, k) < .1) * t.rng.normal(size=(60, k))
    if spec.name.startswith("NDie"):
        x[:30] /= np.maximum(x[:30].sum(1, keepdims=True), 1e-9)
    v = spec.model.are_models_valid(x)
    t.check(v.shape == (60,) and v.dtype == bool, "validity-shape", "%s %s" % (v.shape, v.dtype))
    for i in range(0, 60, 7):
        t.check(bool(spec.model.are_models_valid(x[i:i + 1])[0]) == bool(v[i]), "validity-batch", spec.name)
    if not v.any(): raise Skip()
    eps = spec.eps(t.rng, 6)
    outs = spec.arr(spec.outs(eps[0]))
    L = spec.model.likelihood(outs, x[v], eps)
    t.check(np.all(np.isfinite(L)) and L.min() >= -1e-9 and L.max() <= 1 + 1e-9, "valid-range", "%s: [%g, %g]" % (spec.name, L.min(), L.max()))
    t.close(L.sum(0), np.ones(L.shape[1:]), "valid-sum", rtol=1e-6, atol=1e-6, msg=spec.name)
    inside = spec.mps(t.rng, 30)
    t.check(np.all(spec.model.are_models_valid(inside)), "valid-rejected", "%s rejects parameters in its documented range" % spec.name)
    if spec.name.startswith("RB"):
        # the closed region: perfect and useless gates, and exact sums of A and B, are still probabilities
        q = t.rng.choice([0, .25, .5, 1.0], size=(30, k)); q[:, k - 1] = (1 - q[:, k - 2]) * t.rng.choice([0, .5, 1], size=30)
        t.check(np.all(spec.model.are_models_valid(q)), "boundary-rejected", "%s rejects parameters on the boundary" % spec.name)
        bad = q.copy(); bad[:, k - 2] = t.rng.choice([.5, .75, 1], size=30); bad[:, k - 1] = 1.0625 - bad[:, k - 2]; bad[:, :k - 2] = 1
        t.check(not np.any(spec.model.are_models_valid(bad)), "invalid-accepted", "%s accepts A + B > 1" % spec.name)
    elif spec.name.startswith(("Coin", "NoisyCoin")):
        t.check(np.all(spec.model.are_models_valid(t.rng.choice([0, .5, 1.0], size=(30, k)))), "boundary-rejected", "%s rejects parameters on the boundary" % spec.name)
    far = inside.copy(); far[:, t.rng.randint(k)] = -1.5
    if spec.name.startswith(("Coin", "NoisyCoin", "RB", "NDie", "UnknownT2")):
        t.check(not np.any(spec.model.are_models_valid(far)), "invalid-accepted", "%s accepts a negative parameter" % spec.name)
    if spec.name.startswith(("Coin", "NoisyCoin", "RB", "NDie")):
        far[:] = inside; far[:, t.rng.randint(k)] = 1.5
        t.check(not np.any(spec.model.are_models_valid(far)), "invalid-accepted", "%s accepts a parameter above one" % spec.name)
    t.describe(spec.name); t.seen(("valid", spec.name, int(v.sum())), int(v.sum())); t.count("valid parameter vectors", v.sum())


def sec_density(t):
    """Continuous outcomes: the density integrates to one and has the documented form."""
    spec = gen.s_gauss(t.rng)
    x = spec.mps(t.rng, 3); eps = spec.eps(t.rng, 2)
    k = spec.k
    lo = (x[:, k:k + 2] - 12 * np.sqrt(x[:, k + 2:k + 4])).min(); hi = (x[:, k:k + 2] + 12 * np.sqrt(x[:, k + 2:k + 4])).max()
    y = np.linspace(lo, hi, 4001)
    L = spec.model.likelihood(y, x, eps)
    t.check(L.shape == (len(y), 3, 2) and L.min() >= 0, "density-range", "%s min %g" % (L.shape, L.min()))
    t.close(si.simpson(L, x=y, axis=0), np.ones((3, 2)), "density-integral", rtol=1e-5, atol=1e-5, msg=spec.name)
    z = t.rng.uniform(-5, 5, 4)
    t.close(spec.model.likelihood(z, x, eps), spec.table(z, x, eps), "density-law", rtol=1e-8, atol=1e-12, msg=spec.name)
    t.describe(spec.name); t.seen(("density", spec.name), L.size)


def sec_helpers(t):
    d = int(t.rng.randint(2, 9)); v = t.rng.uniform(-.2, 1.2, 5)
    t.close(rb.F(rb.p(v, d), d), v, "fidelity-roundtrip", rtol=1e-10); t.close(rb.p(rb.F(v, d), d), v, "fidelity-roundtrip", rtol=1e-10)
    t.close(rb.p(v, d), np.array([(d * f - 1) / (d - 1) for f in v]), "depolarising", rtol=1e-10)
    t.close(rb.p(v), np.array([2 * f - 1 for f in v]), "depolarising-default", rtol=1e-10)
    t.close(rb.F(1., d), 1., "fidelity-unit"); t.close(rb.F(rb.p(1.)), 1., "fidelity-unit")
    nm, ne = t.rng.randint(1, 6, 2); p0 = t.rng.rand(nm, ne); o = t.rng.randint(0, 2, t.rng.randint(1, 5))
    b = p0.copy()
    got = FiniteOutcomeModel.pr0_to_likelihood_array(o, p0)
    t.close(got, np.array([p0 if v == 0 else 1 - p0 for v in o]), "pr0", rtol=1e-12, atol=1e-15)
    t.same(p0, b, "pr0-modified")
    got0 = FiniteOutcomeModel.pr0_to_likelihood_array(0, p0)
    t.close(np.asarray(got0), p0[None], "pr0-scalar", rtol=1e-12, atol=1e-15)
    n = int(t.rng.randint(1, 12)); p = float(t.rng.choice([0, 1, t.rng.rand()]))
    ks = np.arange(n + 1)
    from qinfer.utils import binomial_pdf
    t.close(binomial_pdf(n, ks, p), np.array([math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in ks]), "binomial-pdf", rtol=1e-9, atol=1e-12)
    t.seen(("helpers", d, nm, ne), 6)


def sec_extreme(t):
    """The documented law far from everyday scales: very short and very long evolutions and sequences, extreme visibilities, huge registers."""
    r = t.rng; il = bool(r.randint(2)); which = r.randint(5); nm, ne = int(r.randint(1, 5)), int(r.randint(1, 6))
    o = np.array([0, 1])
    if which == 0:
        s = gen.s_rb(r, il); x = s.mps(r, nm); eps = s.eps(r, ne)
        c = 2 if il else 1
        x[:, :c] = 1 - 10. ** r.uniform(-9, -.3, (nm, c))
        eps['m'] = (10. ** r.uniform(0, 7, ne)).astype(np.uint64)
        atol, rtol = 1e-9, 1e-7
    elif which == 1:
        s = gen.s_precession(r); x = 10. ** r.uniform(-6, 6, (nm, 1)); eps = (10. ** r.uniform(-6, 6, ne)).astype(s.model.expparams_dtype); eps[r.rand(ne) < .2] *= -1
        atol = 1e-14 * (1 + np.abs(x).max() * np.abs(eps).max()); rtol = 1e-7
        if atol > 1e-3: raise Skip()
    elif which == 2:
        s = gen.s_inversion(r); x = 10. ** r.uniform(-4, 4, (nm, 1)); eps = s.eps(r, ne); eps['t'] = 10. ** r.uniform(-4, 4, ne); eps['w_'] = x[r.randint(nm, size=ne), 0] + 10. ** r.uniform(-6, 2, ne)
        atol = 1e-14 * (1 + np.abs(x - eps['w_']).max() * eps['t'].max() + (np.abs(x).max() + np.abs(eps['w_']).max()) * eps['t'].max()); rtol = 1e-7
    elif which == 3:
        s = gen.s_t2(r); x = np.column_stack([r.uniform(0, 10, nm), 10. ** r.uniform(-6, 3, nm)]); eps = s.eps(r, ne); eps['t'] = 10. ** r.uniform(-5, 4, ne); atol = 1e-10; rtol = 1e-8
    else:
        s = gen.s_noisy(r); x = r.choice([0, 1e-12, .3, 1 - 1e-12, 1], (nm, 1)); eps = s.eps(r, ne); eps['alpha'] = r.choice([0, 1e-12, .5, .7, 1], ne); eps['beta'] = r.choice([0, 1e-12, .5, .9, 1], ne); atol = 1e-15; rtol = 1e-12
    L = s.model.likelihood(o, x, eps)
    t.describe((s.name, x.tolist(), eps.tolist()))
    t.close(L, s.table(o, x, eps), "documented-law", rtol=rtol, atol=atol, msg=s.name)
    t.close(L.sum(0), np.ones((nm, ne)), "row-sum", rtol=1e-9, atol=1e-9)
    # fidelities of gates on large registers
    d = [int(2 ** r.randint(1, 40)), int(r.randint(2, 10 ** 6))][r.randint(2)]; v = 1 - 10. ** r.uniform(-8, -.2, 4)
    t.close(rb.p(v, d), np.array([(d * f - 1) / (d - 1) for f in v]), "depolarising", rtol=1e-12)
    t.close(rb.F(v, d), np.array([p + (1 - p) / d for p in v]), "fidelity", rtol=1e-12)
    t.close(rb.F(rb.p(v, d), d), v, "fidelity-roundtrip", rtol=1e-12, atol=1e-15)
    t.seen(("extreme", s.name, nm, ne), L.size)


def sec_generic(t):
    """Lab model through the generic FiniteOutcomeModel machinery and representative outcomes."""
    spec = gen.lab(t.rng, z=(0, 1, 2))
    x = spec.mps(t.rng, 4); eps = spec.eps(t.rng, 3)
    no = spec.model.n_outcomes(eps)
    for k in range(3):
        want = spec.outs(eps[k])
        d = spec.model.domain(eps[k:k + 1])[0]
        t.check(list(d.values) == want, "domain-values", "%s vs %s" % (d.values, want))
    ds = spec.model.domain(eps)
    t.check(len(ds) == 3 and [len(d.values) for d in ds] == [len(spec.outs(e)) for e in eps], "domain-per-experiment", "")
    if not spec.varies: t.check(list(spec.model.domain(None).values) == spec.outs(eps[0]), "domain-none", "")
    for m in (gen.s_precession, gen.s_coin, gen.s_rb):
        s = m(t.rng); dn = s.model.domain(None)
        t.check(list(dn.values) == [0, 1] and s.model.n_outcomes(None) == 2, "domain-none", s.name)
    t.seen(("generic", spec.varies, len(spec.outs(eps[0]))), 4)


SECTIONS = [Section("table", sec_table, 900), Section("validity", sec_valid, 250), Section("density", sec_density, 80), Section("extreme", sec_extreme, 300),
            Section("helpers", sec_helpers, 60), Section("domains", sec_generic, 100)]
