"""C27: mixed exact/approximate updating selects particles as documented.

Monitor: both models log which particles they are asked about; selection,
likelihood assembly and posterior weights are recomputed from those logs, and
a plain updater runs in lockstep wherever the two must coincide.
"""
import copy
import numpy as np
import qinfer as qi
from qinfer.smc import MixedApproximateSMCUpdater
from .core import Section, Skip
from . import gen

RULE = ("an observation is one hypothetical or committed update whose selection and weights are reconciled with both models' logs; distinct "
        "means a different (models, share, threshold, minimum, weight shape, outcomes x experiments class) combination")
ASSUMPTIONS = ["ties between equal weights may be broken either way",
               "a cumulative weight within 1e-9 of the configured share may fall on either side"]


class Logged(object):
    """Mixin: logs the particles a model is asked about."""
    def likelihood(self, outcomes, modelparams, expparams):
        L = super(Logged, self).likelihood(outcomes, modelparams, expparams)
        self.log.append((np.array(outcomes), np.array(modelparams), np.array(expparams), np.array(L)))
        return L


def logged(model):
    m = copy.deepcopy(model)
    m.__class__ = type("Logged" + type(model).__name__, (Logged, type(model)), {})
    m.log = []
    return m


class RoundRobin(object):
    """Resampler without randomness, so that lockstep runs stay together."""
    def __call__(self, model, dist, n_particles=None, precomputed_mean=None, precomputed_cov=None):
        w, x = np.asarray(dist.particle_weights), np.asarray(dist.particle_locations)
        n = len(w); c = np.cumsum(w); c[-1] = 1.
        i = np.searchsorted(c, (np.arange(n) + .5) / n)
        y = x[i] * (1 + 1e-4 * ((np.arange(n) % 7)[:, None] - 3))
        ok = model.are_models_valid(y); y[~ok] = x[i][~ok]
        return qi.ParticleDistribution(particle_locations=y, particle_weights=np.ones(n) / n)


def pair(rng):
    k = rng.randint(6)
    if k == 5:              # real-valued outcomes: likelihoods are densities, which may exceed one
        b = gen.s_coin(rng); s = gen.s_gauss(rng, b); wide = s.mps; kk = s.k
        def mps(r, n):
            x = wide(r, n); x[:, kk:kk + 2] *= .05; x[:, kk + 2:] *= 10. ** r.uniform(-4, -1, (n, 2)); return x
        s.mps = mps; s.outs = lambda e: list(np.linspace(-.2, .2, 5))
        a = gen.Spec("mle", qi.GaussianHyperparameterizedModel(qi.MLEModel(b.model, .6)), s.mps, s.eps, s.outs, None)
    elif k == 0:
        s = gen.s_precession(rng); a = gen.s_precession(rng); a.model = qi.MLEModel(qi.SimplePrecessionModel(), .5)
    elif k == 1:
        s = gen.s_t2(rng); a = gen.Spec("noise", qi.MLEModel(s.model, .7), s.mps, s.eps, s.outs, None)
    elif k == 2: s = gen.s_ndie(rng); a = gen.Spec("mle", qi.MLEModel(s.model, 2.), s.mps, s.eps, s.outs, None)
    elif k == 3: s = gen.s_binomial(rng); a = gen.Spec("mle", qi.MLEModel(s.model, .6), s.mps, s.eps, s.outs, None)
    else:
        s = gen.lab(rng, vary=False, step=rng.rand() < .3, zero=rng.rand() < .3); b = copy.deepcopy(s.model); b._coef = b._coef + .3 * rng.standard_normal(b._coef.shape)
        a = gen.Spec("perturbed", b, s.mps, s.eps, s.outs, None)
    return s, a


def selection(t, w, good, ratio, thresh, mingood, tol=1e-12):
    """good: boolean mask actually used."""
    n = len(w); k = int(good.sum())
    if 0 < k < n:
        t.check(w[good].min() >= w[~good].max() * (1 - 1e-12), "not-the-heaviest", lambda: "lightest exact particle weighs %r, heaviest approximate one %r" % (w[good].min(), w[~good].max()))
    s = np.concatenate([[0], np.cumsum(np.sort(w)[::-1])])          # weight of the k heaviest
    lo = int(np.argmax(s >= ratio - 1e-9)) if s[-1] >= ratio - 1e-9 else n
    hi = int(np.argmax(s > ratio + 1e-9)) if s[-1] > ratio + 1e-9 else n
    tlo, thi = int((w >= thresh * (1 + tol)).sum()), int((w >= thresh * (1 - tol)).sum())
    lo, hi = max(lo, tlo), max(hi, thi)
    lo, hi = max(lo, mingood), max(hi, mingood)
    t.check(lo <= k <= hi, "wrong-number", lambda: "%d of %d particles exact, expected %d%s (share %s, threshold %s, minimum %d); heaviest weights %s"
            % (k, n, lo, '' if lo == hi else '..%d' % hi, ratio, thresh, mingood, np.sort(w)[::-1][:8]))


def split(t, w, X, good, apx):
    """Which particles were asked of which model; every particle once."""
    rows = {r.tobytes(): i for i, r in enumerate(np.ascontiguousarray(X))}
    mask = np.zeros(len(X), dtype=int); L = None
    for tag, log in ((1, good.log), (2, apx.log)):
        for o, x, e, l in log:
            for j, r in enumerate(np.ascontiguousarray(x)):
                i = rows.get(r.tobytes())
                t.check(i is not None, "unknown-particle", lambda: "model asked about %s" % r)
                t.check(mask[i] == 0, "particle-twice", lambda: "particle %d" % i)
                mask[i] = tag
                if L is None: L = np.full((l.shape[0], len(X), l.shape[2]), np.nan)
                L[:, i, :] = l[:, j, :]
    t.check(np.all(mask > 0), "particle-left-out", lambda: "%d particles" % (mask == 0).sum())
    return mask == 1, L


def setup(t, same=False):
    rng = t.rng
    s, a = pair(rng)
    n = int(rng.choice([2, 3, 10, 40, 120]))
    good, apx = logged(s.model), logged(s.model if same else a.model)
    ratio = float(rng.choice([0, .1, .5, .9, .999, 1., rng.rand()])); thresh = float(rng.choice([1., 1., .3, 1.5 / n, 1e-3, 2.])); mg = int(rng.choice([0, 0, 1, min(3, n), n]))
    return s, a, n, good, apx, ratio, thresh, mg


def make(rng, good, apx, n, prior, ratio, thresh, mg, **kw):
    if rng.rand() < .3 and not kw and mg == 0 and ratio == .5 and thresh == 1.: return MixedApproximateSMCUpdater(good, apx, n, prior)
    return MixedApproximateSMCUpdater(good, apx, n, prior, mixture_ratio=ratio, mixture_thresh=thresh, min_good=mg, **kw)


def sec_select(t):
    rng = t.rng
    s, a, n, good, apx, ratio, thresh, mg = setup(t)
    if rng.rand() < .15: ratio, thresh, mg = .5, 1., 0
    dyadic = rng.rand() < .3       # weights that are exact in binary: a weight equal to the threshold is at least equal to it
    if dyadic:
        n = int(rng.choice([2, 4, 8, 16]))
        w = np.ones(n) / n if rng.rand() < .4 else rng.permutation(np.append(2. ** -np.arange(1, n), 2. ** -(n - 1)))
        thresh = float(rng.choice(w)); ratio = float(rng.choice([0, .1, .3, .7])); mg = min(mg, n)
    u = make(rng, good, apx, n, s.prior(), ratio, thresh, mg)
    X = s.mps(rng, n)
    if len(np.unique(X, axis=0)) < n: raise Skip
    if not dyadic: w = gen.weights(rng, n)
    u.particle_locations = X.copy(); u.particle_weights = w.copy()
    t.describe((s.name, a.name, n, ratio, thresh, mg))
    for _ in range(2):
        ne = int(rng.choice([1, 1, 3])); eps = s.eps(rng, ne)
        outs = s.outs(eps[0]); o = [outs[i] for i in rng.randint(len(outs), size=int(rng.choice([1, 2])))]
        single = len(o) == 1 and rng.rand() < .5
        arr = o[0] if single else s.arr(o)
        del good.log[:], apx.log[:]
        before = gen.snapshot(u)
        kind = rng.randint(4); kw = [{}, dict(return_likelihood=True), dict(return_normalization=True), dict(return_likelihood=True, return_normalization=True)][kind]
        out = u.hypothetical_update(arr, eps, **kw)
        t.check(not gen.sdiff(before, gen.snapshot(u)), "prediction-changes-state", "")
        for lg in good.log + apx.log:
            t.check(np.array_equal(lg[0], np.atleast_1d(arr) if single else arr), "other-outcomes", ""); t.same(lg[2], eps, "other-experiments")
        mask, L = split(t, w, X, good, apx)
        selection(t, w, mask, ratio, thresh, mg, 0. if dyadic else 1e-12)
        L = L.transpose(0, 2, 1); W = w * L; N = W.sum(axis=2, keepdims=True)
        out = out if isinstance(out, tuple) else (out,)
        t.check(len(out) == [1, 2, 2, 3][kind], "returns", lambda: "%d values" % len(out))
        if kind in (1, 3): t.close(out[1], L, "likelihood", rtol=1e-12)
        if kind in (2, 3): t.close(np.asarray(out[-1]).reshape(N.shape), N, "normalization", rtol=1e-9, atol=1e-300)
        ok = N > 1e-14
        t.close(np.where(ok, out[0], 0), np.where(ok, W / np.where(ok, N, 1), 0), "weights", rtol=1e-9)
        t.count("particles reconciled", n)
        t.seen((s.name.split('(')[0], ratio if ratio in (0, 1) else 'part', thresh < 1, mg, n, ne, len(o), int(mask.all()) - int(not mask.any())))


def run(t, s, u, v, logs, ratio, thresh, mg, steps, same):
    rng = t.rng
    true = s.mps(rng, 1)[0]
    for k in range(steps):
        e = s.eps(rng, 1); outs = s.outs(e[0]); p = np.array([max(0., s.pr(o, true, e[0])) for o in outs]); o = outs[rng.choice(len(outs), p=p / p.sum())]
        o = s.arr([o]) if rng.rand() < .5 or getattr(s, 'odtype', None) is not None else o
        w, X = u.particle_weights.copy(), u.particle_locations.copy()
        for g in logs: del g.log[:]
        chk = rng.rand() < .8
        if len(np.unique(X, axis=0)) < len(X): return
        rc = u.resample_count
        try: u.update(o, e, check_for_resample=chk)
        except RuntimeError:            # an outcome impossible for all particles is refused by default
            L = split(t, w, X, *logs)[1]; t.check((w * L[0, :, 0]).sum() < 1e-9, "refused-possible-outcome", "")
            return
        v and v.update(o, e, check_for_resample=chk)
        if u.particle_weights.sum() == 0: return
        hyp = [list(g.log) for g in logs]
        mask, L = split(t, w, X, *logs)
        selection(t, w, mask, ratio, thresh, mg)
        W = w * L[0, :, 0]
        t.close(np.ravel(u.normalization_record[-1]), [W.sum()], "normalization-record", rtol=1e-9)
        t.check(len(u.data_record) == k + 1, "data-record", "")
        t.close(u.particle_weights.sum(), 1., "not-normalised", atol=1e-9); t.check(np.all(u.particle_weights >= 0), "negative-weight", "")
        if u.resample_count == rc: t.close(u.particle_weights, W / W.sum(), "weights", rtol=1e-9)
        if v is not None:
            t.close(u.particle_weights, v.particle_weights, "differs-from-plain", rtol=1e-9); t.close(u.particle_locations, v.particle_locations, "differs-from-plain", rtol=1e-9)
            t.check(u.resample_count == v.resample_count and u.just_resampled == v.just_resampled, "differs-from-plain", "resampling")
            t.close(np.ravel(u.normalization_record), np.ravel(v.normalization_record), "differs-from-plain", rtol=1e-9)
            t.close(u.est_mean(), v.est_mean(), "differs-from-plain", rtol=1e-8, atol=1e-9)
        t.seen((s.name.split('(')[0], same, ratio, u.just_resampled, k > 0, v is not None))


def sec_same(t):
    """Identical models, or a share of one: exactly the plain updater."""
    rng = t.rng
    same = rng.rand() < .6
    s, a, n, good, apx, ratio, thresh, mg = setup(t, same)
    n = max(n, 10)
    if not same:
        if rng.rand() < .6: ratio = 1.
        else: mg = n
    X = s.mps(rng, n); prior = gen.FnPrior(lambda r, k: X[:k], s.model.n_modelparams)
    rt = float(rng.choice([0, .5, .95])); res = RoundRobin()
    t.describe((s.name, same, n, ratio, thresh, mg, rt))
    u = make(rng, good, apx, n, prior, ratio, thresh, mg, resampler=res, resample_thresh=rt)
    v = qi.SMCUpdater(copy.deepcopy(s.model), n, prior, resampler=RoundRobin(), resample_thresh=rt)
    t.check(u.model is good and isinstance(u, qi.SMCUpdater), "model", "")
    run(t, s, u, v, (good, apx), ratio, thresh, mg, int(rng.randint(2, 7)), same)
    if not same: t.check(not apx.log, "approximate-model-used", "")


def sec_history(t):
    rng = t.rng
    s, a, n, good, apx, ratio, thresh, mg = setup(t)
    n = max(n, 10); thresh = float(rng.choice([1., thresh])); mg = min(mg, n)
    kw = [dict(), dict(resample_a=.95), dict(resampler=qi.LiuWestResampler(a=.9))][rng.randint(3)]; rt = float(rng.choice([.2, .5, .9]))
    t.describe((s.name, a.name, n, ratio, thresh, mg, sorted(kw)))
    u = make(rng, good, apx, n, s.prior(), ratio, thresh, mg, resample_thresh=rt, **kw)
    run(t, s, u, None, (good, apx), ratio, thresh, mg, int(rng.randint(2, 8)), False)
    if rng.rand() < .5:
        es = s.eps(rng, 4); del good.log[:], apx.log[:]
        k = len(u.data_record); os_ = s.arr([s.outs(es[0])[0]] * 4) if not getattr(s, 'odtype', None) else None
        if os_ is not None:
            try: u.batch_update(os_, es, resample_interval=2)
            except RuntimeError: return       # outcome impossible for all particles
            t.check(len(u.data_record) == k + 4, "batch", ""); 
            if u.particle_weights.sum(): t.close(u.particle_weights.sum(), 1., "not-normalised", atol=1e-9)
    u.reset(); t.close(u.particle_weights, np.ones(n) / n, "reset", rtol=1e-12)


SECTIONS = [Section("select", sec_select, 500), Section("same", sec_same, 200), Section("history", sec_history, 200)]
