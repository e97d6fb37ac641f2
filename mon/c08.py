"""C08: Bayes risk and expected information gain equal brute-force enumeration over outcomes."""
import math
import numpy as np
import qinfer as qi
from mon import gen, live
from mon.core import Section, Skip

RULE = ("one observation = risk or gain of one experiment under one posterior compared with an enumeration of outcomes "
        "using the documented law in plain Python; distinct = (model family, weights kind, batch size, impossible outcome present)")
ASSUMPTIONS = ["finite-outcome models with normalised likelihoods (an MLE power of a likelihood has no outcome average)"]


def far(spec, c):
    """The same problem with every parameter moved by c: parameters far from zero compared with their spread."""
    m = spec.model; base = type(m)

    class Far(base):
        def likelihood(self, outcomes, modelparams, expparams): return base.likelihood(self, outcomes, modelparams - c, expparams)
    m.__class__ = Far
    mps, pr = spec.mps, spec.pr
    spec.mps = lambda r, n: mps(r, n) + c
    spec.pr = lambda o, x, e: pr(o, x - c, e)
    spec.name = "far-" + spec.name
    return spec


def post(t, spec, n):
    u = qi.SMCUpdater(spec.model, n, spec.prior(), resample_thresh=0)
    if t.rng.rand() < .6: u.particle_weights = gen.weights(t.rng, n)
    if t.rng.rand() < .4:
        for _ in range(2):
            e = spec.eps(t.rng, 1); outs = spec.outs(e[0]); o = spec.arr([outs[t.rng.randint(len(outs))]])
            w = u.particle_weights; L = np.array([spec.pr(o[0], x, e[0]) for x in u.particle_locations])
            if (w * L).sum() > 1e-5: u.update(o[0] if o.dtype.names else int(o[0]), e)
    return u


def enum(spec, w, x, e, Q):
    risk = gain = 0.0; impossible = False; tot = 0.0
    for o in spec.outs(e):
        o = spec.arr([o])[0]
        L = np.array([min(max(spec.pr(o, xi, e), 0.0), 1.0) for xi in x])
        N = math.fsum(w * L); tot += N
        if N < 1e-15: impossible = True; continue
        p = w * L / N
        mu = gen.wmean(p, x)
        risk += N * math.fsum(p[i] * math.fsum(Q * (x[i] - mu) ** 2) for i in range(len(w)))
        gain += N * math.fsum(p[i] * math.log(L[i] / N) for i in range(len(w)) if p[i] > 0)
    return risk, gain, impossible, tot


def sec_enum(t):
    r = t.rng.rand()
    if r < .55:
        spec = gen.lab(t.rng, z=(0, 0, 1, 2), spread=float(t.rng.choice([.3, 1., 4.])), step=False if r < .12 else None)
        if r < .12: spec = far(spec, 2. ** t.rng.randint(10, 26))
    elif r < .9: spec = gen.any_spec(t.rng)
    else: spec = gen.s_binomial(t.rng)
    if getattr(spec, "unnormalised", False): spec = spec.base
    n = int(t.rng.choice([1, 3, 12, 40])); u = post(t, spec, n)
    ne = int(t.rng.choice([1, 1, 2, 5])); eps = spec.eps(t.rng, ne)
    w, x = np.array(u.particle_weights), np.array(u.particle_locations)
    Q = np.asarray(spec.model.Q, float) * np.ones(x.shape[1])
    t.describe("%s, %d particles, %d experiments" % (spec.name, n, ne))
    ref = [enum(spec, w, x, eps[k], Q) for k in range(ne)]
    if any(abs(v[3] - 1) > 1e-6 for v in ref): raise Skip()
    risk = np.asarray(u.bayes_risk(eps)); gain = np.asarray(u.expected_information_gain(eps))
    t.check(risk.shape == (ne,) and gain.shape == (ne,), "shape", "%s %s" % (risk.shape, gain.shape))
    t.check(np.all(np.isfinite(risk)) and np.all(np.isfinite(gain)), "finite", "risk %s gain %s" % (risk, gain))
    mu = gen.wmean(w, x); now = math.fsum(w[i] * math.fsum(Q * (x[i] - mu) ** 2) for i in range(n))
    # rounding of the means, relative to the offset of the cloud, enters the deviations
    em = 2e-16 * (n + 4) * np.abs(x).max(axis=0)
    sc = math.fsum(Q * (np.ptp(x, axis=0) ** 2 + 1e9 * (4 * em * np.ptp(x, axis=0) + em ** 2)) + 1e-300)
    t.close(risk, np.array([v[0] for v in ref]), "bayes-risk", rtol=1e-7, atol=1e-9 * sc, msg=spec.name)
    t.close(gain, np.array([v[1] for v in ref]), "information-gain", rtol=1e-7, atol=1e-8, msg=spec.name)
    t.check(np.all(risk >= -1e-12 * sc) and np.all(risk <= now + 1e-9 * sc), "risk-bound", "risk %s, current variance %g" % (risk, now))
    t.check(np.all(gain >= -1e-9), "gain-negative", "%s" % gain)
    ent = -math.fsum(v * math.log(v) for v in w if v > 0)
    t.check(np.all(gain <= ent + 1e-8), "gain-bound", "gain %s exceeds the entropy %g of the posterior" % (gain, ent))
    if ne > 1:
        k = int(t.rng.randint(ne))
        t.close(u.bayes_risk(eps[k:k + 1]), risk[k:k + 1], "risk-batch", rtol=1e-9, atol=1e-12 * sc)
        t.close(u.expected_information_gain(eps[k:k + 1]), gain[k:k + 1], "gain-batch", rtol=1e-9, atol=1e-10)
        q = t.rng.permutation(ne)
        t.close(u.bayes_risk(eps[q]), risk[q], "risk-order", rtol=1e-9, atol=1e-12 * sc)
        t.close(u.expected_information_gain(eps[q]), gain[q], "gain-order", rtol=1e-9, atol=1e-10)
    t.seen((spec.name.split('(')[0], n, ne, any(v[2] for v in ref), bool((w == 0).any())), 2 * ne)
    t.count("experiments with an impossible outcome", sum(v[2] for v in ref))


def sec_realised(t):
    """The expectation is what really happens: average over actual updates of the posterior variance / divergence."""
    spec = gen.lab(t.rng, step=False, zero=False) if t.rng.rand() < .7 else gen.s_binomial(t.rng)
    n = int(t.rng.choice([5, 20])); u = post(t, spec, n); e = spec.eps(t.rng, 1)
    w, x = np.array(u.particle_weights), np.array(u.particle_locations); Q = np.asarray(spec.model.Q, float) * np.ones(x.shape[1])
    import copy
    risk = gain = 0.0
    for o in spec.outs(e[0]):
        v = copy.deepcopy(u)
        N = float((w * [spec.pr(o, xi, e[0]) for xi in x]).sum())
        if N < 1e-13: continue
        v._zero_weight_thresh = 0
        v.update(o, e)
        p = v.particle_weights; mu = gen.wmean(p, x)
        risk += N * (p * (Q * (x - mu) ** 2).sum(1)).sum()
        k = p > 0; gain += N * (p[k] * np.log(p[k] / w[k])).sum()
    sc = (Q * np.ptp(x, axis=0) ** 2).sum() + 1e-8 * (x ** 2).max() + 1e-300
    t.close(u.bayes_risk(e)[0], risk, "risk-realised", rtol=1e-6, atol=1e-9 * sc)
    t.close(u.expected_information_gain(e)[0], gain, "gain-realised", rtol=1e-6, atol=1e-8)
    t.describe(spec.name); t.seen(("realised", spec.name.split('(')[0], n), 2)


def sec_live(t):
    """Risk and gain of an updater with a history are those of a new one with the same particles and weights."""
    spec = gen.lab(t.rng, z=(0, 2), zero=False) if t.rng.rand() < .6 else gen.any_spec(t.rng)
    if getattr(spec, "unnormalised", False): spec = spec.base
    if hasattr(spec.model, '_rw_idxs'): raise Skip()
    eps = spec.eps(t.rng, int(t.rng.choice([1, 2, 4])))
    for u, ev, spec in live.walk(t, steps=6, nmax=15, spec=spec):
        v = live.twin(u); sc = float(np.sum(np.asarray(spec.model.Q, float) * np.ptp(v.particle_locations, axis=0) ** 2)) + 1e-300
        for q in t.rng.permutation(2):
            if q: t.close(u.bayes_risk(eps), v.bayes_risk(eps), "stale-risk", rtol=1e-9, atol=1e-11 * sc, msg="%s after %s" % (spec.name, ev))
            else: t.close(u.expected_information_gain(eps), v.expected_information_gain(eps), "stale-gain", rtol=1e-9, atol=1e-10, msg="%s after %s" % (spec.name, ev))
        if t.rng.rand() < .3: eps = spec.eps(t.rng, int(t.rng.choice([1, 2, 4])))
        elif t.rng.rand() < .3: eps[:] = spec.eps(t.rng, len(eps))          # the same array, other experiments
        t.seen(("live", spec.name.split('(')[0], ev), 2)
    t.describe(spec.name); t.count("histories")


SECTIONS = [Section("live", sec_live, 60), Section("enumeration", sec_enum, 900), Section("realised", sec_realised, 200)]
