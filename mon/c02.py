"""C02: hypothetical updates predict real ones; queries change nothing."""
import copy, itertools
import numpy as np
import qinfer as qi
from mon import gen, live
from mon.core import Section, Skip
from mon.c01 import pick, make

RULE = ("hypothetical: one observation = one (outcome, experiment) cell compared with the reference law and (a sample) with a real update of a deep copy; "
        "purity: one observation = one query bracketed by byte snapshots of the updater and of every argument; distinct = (model family, shape of request / query, options)")


def posterior(t, spec, n=None, hist=None, cls=None, **kw):
    u, rec = make(t, spec, n=n, **kw)
    for i in range(t.rng.randint(0, 5) if hist is None else hist):
        e = spec.eps(t.rng, 1)
        o, L = pick(t, spec, u.particle_weights, u.particle_locations, e[0])
        try:
            u.update(o, e)
        except RuntimeError:
            raise Skip()
    return u


def sec_hyp(t):
    pool = gen.BASE + gen.DERIVED + [gen.s_gauss, gen.s_sharp]
    spec = gen.lab(t.rng, z=(0, 1, 2)) if t.rng.rand() < .4 else pool[t.idx % len(pool)](t.rng)
    u = posterior(t, spec)
    m = t.rng.randint(1, 5)
    eps = spec.eps(t.rng, m)
    if spec.name.startswith("lab") and getattr(spec, "varies", False):
        eps['k'] = eps['k'][0]
    if 'n_meas' in (eps.dtype.names or ()):
        eps['n_meas'] = eps['n_meas'][0]
    outs = spec.outs(eps[0])
    q = t.rng.randint(1, len(outs) + 1)
    sel = [outs[i] for i in t.rng.choice(len(outs), q, replace=t.rng.rand() < .3)][:5]
    oarr = spec.arr(sel)
    t.describe("%s: %d outcomes x %d experiments, %d particles" % (spec.name, len(oarr), m, u.n_particles))
    s0 = gen.snapshot(u); a0 = (oarr.tobytes(), eps.tobytes())
    st = np.random.get_state()
    W, L, N = u.hypothetical_update(oarr, eps, return_likelihood=True, return_normalization=True)
    t.check(gen.snapshot(u) == s0, "hypothetical-changed-state", lambda: str(gen.sdiff(s0, gen.snapshot(u))))
    t.check((oarr.tobytes(), eps.tobytes()) == a0, "hypothetical-changed-arguments", "")
    n = u.n_particles
    w0, x0 = np.array(u.particle_weights), np.array(u.particle_locations)
    T = spec.table(oarr, x0, eps).transpose(0, 2, 1)
    unnorm = w0 * T
    Z = unnorm.sum(axis=2)
    t.close(L, T, "hypothetical-likelihood", rtol=1e-8, atol=1e-12, msg=spec.name)
    N = np.asarray(N)
    t.check(N.size == Z.size, "normalization-shape", "%s for %s" % (N.shape, Z.shape))
    t.close(N.reshape(Z.shape), Z, "hypothetical-normalization", rtol=1e-8, atol=1e-12, msg=spec.name)
    t.check(W.shape == (len(oarr), m, n), "hypothetical-shape", "%s" % (W.shape,))
    ok = Z > 1e-9
    want = unnorm / np.where(ok, Z, 1)[..., None]
    t.close(W[ok], want[ok], "hypothetical-weights", rtol=1e-7, atol=1e-12, msg=spec.name)
    t.check(np.all(W[Z == 0] == 0), "impossible-weights", "weights for an impossible outcome are not zero")
    t.check(np.all(np.isfinite(W)) and np.all(W >= -1e-12), "weights-finite", lambda: "%s %s %s" % (spec.name, W[~(np.isfinite(W) & (W>=-1e-12))][:3], Z))
    # every combination of flags returns the same numbers
    r = u.hypothetical_update(oarr, eps)
    t.same(r, W, "flags-weights")
    r = u.hypothetical_update(oarr, eps, return_likelihood=True)
    t.same(r[0], W, "flags-weights"); t.same(r[1], L, "flags-likelihood")
    r = u.hypothetical_update(oarr, eps, return_normalization=True)
    t.same(r[0], W, "flags-weights"); t.same(r[1], N, "flags-normalization")
    t.check(gen.snapshot(u) == s0, "hypothetical-changed-state", "")
    for i, k in itertools.islice(((i, k) for i in range(len(oarr)) for k in range(m)), 6):
        t.seen((spec.name.split('(')[0], len(oarr), m, bool(ok[i, k])))
        if not ok[i, k]: continue
        v = copy.deepcopy(u)
        v.update(oarr[i], eps[k:k + 1], check_for_resample=False)
        t.close(v.particle_weights, W[i, k], "hypothetical-vs-real", rtol=1e-9, atol=1e-13, msg=spec.name)
        t.close(float(np.ravel(v.normalization_record[-1])[0]), float(N.reshape(Z.shape)[i, k]), "hypothetical-vs-real-norm")
        # single outcome forms
        if i == 0 and not spec.name.startswith("Multi"):
            r = u.hypothetical_update(oarr[i].item() if oarr.dtype.names is None else oarr[i], eps[k:k + 1])
            t.close(r[0, 0], W[i, k], "scalar-outcome", rtol=1e-12)
    t.count("cells compared", len(oarr) * m)


class Memo(object):
    """Mixin: a model that keeps its answers and hands out the same array again."""
    def likelihood(self, outcomes, modelparams, expparams):
        key = (np.shape(outcomes), np.shape(modelparams), np.shape(expparams), np.asarray(outcomes).tobytes(), np.asarray(modelparams).tobytes(), np.asarray(expparams).tobytes())
        if key not in self.memo: self.memo[key] = super(Memo, self).likelihood(outcomes, modelparams, expparams)
        return self.memo[key]


def sec_memo(t):
    """Models may answer from a cache: queries leave what the model handed out as it was."""
    pool = gen.BASE + gen.DERIVED + [gen.s_gauss]
    spec = pool[t.idx % len(pool)](t.rng)
    u = posterior(t, spec)
    m = copy.copy(u.model); m.__class__ = type("Memo" + type(m).__name__, (Memo, type(m)), {}); m.memo = {}
    u.model = m
    eps = spec.eps(t.rng, t.rng.randint(1, 4))
    if 'n_meas' in (eps.dtype.names or ()): eps['n_meas'] = eps['n_meas'][0]
    if getattr(spec, 'varies', False) and 'k' in (eps.dtype.names or ()): eps['k'] = eps['k'][0]
    outs = spec.outs(eps[0]); o = spec.arr([outs[i] for i in t.rng.randint(len(outs), size=t.rng.randint(1, 3))])
    t.describe("memoised %s" % spec.name)
    asks = [lambda: u.hypothetical_update(o, eps), lambda: u.hypothetical_update(o, eps, return_normalization=True),
            lambda: u.hypothetical_update(o, eps, return_likelihood=True, return_normalization=True)]
    if not spec.continuous and not spec.name.startswith("Multinomial"):
        asks += [lambda: u.bayes_risk(eps), lambda: u.expected_information_gain(eps)]
    first = None
    for k in t.rng.permutation(np.repeat(np.arange(len(asks)), 2)):
        kept = dict((q, v.copy()) for q, v in m.memo.items())
        s0 = gen.snapshot(u)
        r = asks[k]()
        for q in kept: t.same(m.memo[q], kept[q], "answer-overwritten", "%s query %d" % (spec.name, k))
        if k < 3:
            W = r[0] if isinstance(r, tuple) else r
            if first is None: first = np.array(W)
            t.same(W, first, "query-changes-query", "%s query %d" % (spec.name, k))
        t.seen((spec.name.split('(')[0], "memo", int(k)))


def queries(t, u, spec):
    r = t.rng
    d = u.n_rvs
    eps = spec.eps(r, r.randint(1, 4))
    fn_f = lambda x: np.column_stack([x[:, 0] ** 2, x.sum(axis=1)])
    other = qi.ParticleDistribution(particle_locations=np.array(u.particle_locations) + .01, particle_weights=np.ones(u.n_particles))
    pts = r.uniform(-1, 2, (7, d))
    level = r.uniform(.3, .97)
    q = [("est_mean", lambda: u.est_mean(), ()), ("est_covariance_mtx", lambda: u.est_covariance_mtx(), ()),
         ("est_covariance_mtx(corr)", lambda: u.est_covariance_mtx(corr=True), ()),
         ("est_meanfn", lambda: u.est_meanfn(fn_f), ()), ("est_entropy", lambda: u.est_entropy(), ()),
         ("est_kl_divergence", lambda: u.est_kl_divergence(other), (other.particle_locations, other.particle_weights)),
         ("n_ess", lambda: u.n_ess, ()), ("min_n_ess", lambda: u.min_n_ess, ()), ("n_particles", lambda: u.n_particles, ()),
         ("sample", lambda: u.sample(9), ()), ("est_credible_region", lambda: u.est_credible_region(level), ()),
         ("est_credible_region(outside)", lambda: u.est_credible_region(level, return_outside=True), ()),
         ("posterior_marginal", lambda: u.posterior_marginal(idx_param=d - 1, res=20, smoothing=.1), ()),
         ("in_credible_region(pce)", lambda: u.in_credible_region(pts, level, method='pce'), (pts,)),
         ("log_total_likelihood", lambda: u.log_total_likelihood, ()),
         ("data_record", lambda: u.data_record.append(None), ()),
         ("repr_html", lambda: u._repr_html_(), ()),
         ("cluster_moments", lambda: list(u.est_cluster_moments()), ()),
         ("cluster_covs", lambda: u.est_cluster_covs(), ()),
         ]
    if d >= 2:
        q += [("posterior_mesh", lambda: u.posterior_mesh(0, 1, 5, 6), ())]
    if d == 2 and u.n_particles >= 17:
        q += [("region_est_hull", lambda: u.region_est_hull(level), ()),
              ("region_est_ellipsoid", lambda: u.region_est_ellipsoid(level), ()),
              ("in_credible_region(hull)", lambda: u.in_credible_region(pts, level), (pts,)),
              ("in_credible_region(mvee)", lambda: u.in_credible_region(pts, level, method='hpd-mvee'), (pts,))]
    if not spec.continuous and not spec.name.startswith("Multinomial"):
        q += [("bayes_risk", lambda: u.bayes_risk(eps), (eps,)),
              ("expected_information_gain", lambda: u.expected_information_gain(eps), (eps,))]
    o = spec.arr(spec.outs(eps[0])[:2])
    q += [("hypothetical_update", lambda: u.hypothetical_update(o, eps), (o, eps))]
    return q


def sec_pure(t):
    """Byte snapshots around every read-only query, and answers stay the same when repeated."""
    spec = gen.lab(t.rng, z=(0, 2), zero=False) if t.rng.rand() < .6 else gen.any_spec(t.rng)
    if spec.name.startswith(("RandomWalk", "GaussianRandom")): pass
    u = posterior(t, spec, n=int(t.rng.choice([5, 17, 40])), resample_thresh=t.rng.choice([0, .6]))
    t.describe("%s, %d particles" % (spec.name, u.n_particles))
    qs = queries(t, u, spec)
    for i in t.rng.permutation(len(qs)):
        name, f, args = qs[i]
        s0 = gen.snapshot(u); a0 = [a.tobytes() for a in args]
        pst = np.random.get_state()
        try:
            f()
        except Exception as e:
            # hull/ellipsoid of a degenerate cloud is refused by Qhull: not this property's concern
            if name.startswith(("region", "in_cred")) or type(e).__name__ == "QhullError": continue
            if name == "repr_html" and not np.all(np.diag(u.est_covariance_mtx()) > 0): continue
            if name.startswith("posterior_marginal") and np.ptp(u.particle_locations[:, -1]) == 0: continue
            if name.startswith("in_credible_region(pce)") and isinstance(e, np.linalg.LinAlgError): continue
            raise
        s1 = gen.snapshot(u)
        t.check(s1 == s0, "query-changed-state", lambda: "%s changed %s (%s)" % (name, gen.sdiff(s0, s1), spec.name))
        t.check([a.tobytes() for a in args] == a0, "query-changed-argument", "%s (%s)" % (name, spec.name))
        t.seen((name, spec.name.split('(')[0])); t.count("queries bracketed")
        # same answer again under the same random stream
        if name in ("data_record", "repr_html"): continue
        np.random.set_state(pst); a = f()
        np.random.set_state(pst); b = f()
        t.check(repr(a) == repr(b) or _eq(a, b), "query-not-repeatable", name)


def _eq(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) if np.asarray(a).dtype.kind in 'fc' else np.array_equal(a, b)


def sec_between(t):
    """A run interrupted by queries ends bit-identically to the same run without them."""
    spec = gen.lab(t.rng, z=(0, 2), zero=False)
    data = None
    def run(ask):
        np.random.seed(t.idx + 11)
        rng = np.random.RandomState(t.idx)
        u = qi.SMCUpdater(spec.model, 40, spec.prior(), resample_thresh=.6, canonicalize=bool(t.idx % 2))
        out = []
        for i in range(6):
            if ask:
                st = np.random.get_state()
                for k, (name, f, args) in enumerate(queries(t, u, spec)):
                    try: f()
                    except Exception: pass
                np.random.set_state(st)
            e = spec.eps(rng, 1)
            try: u.update(int(rng.choice([0, 1])), e)
            except RuntimeError: out.append(i); break           # impossible for the whole cloud
        return u, out
    (a, oa), (b, ob) = run(False), run(True)
    t.check(oa == ob, "queries-affect-refusal", lambda: "refused %s without queries, %s with" % (oa, ob))
    t.check(gen.snapshot(a) == gen.snapshot(b), "queries-affect-history", lambda: str(gen.sdiff(gen.snapshot(a), gen.snapshot(b))))
    t.seen(("between", spec.name)); t.count("interleaved runs")


def sec_plots(t):
    """Plots show the queried posterior, and leave it as it was."""
    import matplotlib; matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    spec = gen.lab(t.rng, z=(0, 2), zero=False, d=int(t.rng.randint(2, 4)))
    u = posterior(t, spec, n=int(t.rng.choice([5, 17, 40])))
    if np.ptp(u.particle_locations, axis=0).min() == 0: raise Skip
    d = u.n_rvs; i, j = [int(x) for x in t.rng.permutation(d)[:2]]
    res = int(t.rng.randint(5, 40)); sm = float(t.rng.choice([0, .1, .3])); true = spec.mps(t.rng, 1)
    lim = dict(range_min=-3., range_max=float(t.rng.uniform(0, 4))) if t.rng.rand() < .4 else {}
    s0 = gen.snapshot(u); a0 = true.tobytes()
    t.describe("%s param %d res %d" % (spec.name, i, res))
    try:
        fig = plt.figure()
        want = u.posterior_marginal(i, res, sm, **lim)
        x = true if t.rng.rand() < .5 else true[0]
        line, = u.plot_posterior_marginal(idx_param=i, res=res, smoothing=sm, true_model=x if t.rng.rand() < .7 else None, label_xaxis=bool(t.rng.randint(2)), **lim)
        t.same(line.get_xdata(), want[0], "plotted-marginal"); t.same(line.get_ydata(), want[1], "plotted-marginal")
        for c in plt.gca().collections:
            for s in c.get_segments(): t.close(s[:, 0], np.repeat(true[0, i], 2), "plotted-true-value")
        plt.close(fig); fig = plt.figure()
        c = u.plot_posterior_contour(i, j, res1=6, res2=5, smoothing=.4)
        p, q, z = u.posterior_mesh(i, j, 6, 5, .4)
        t.check(c.levels.min() <= z.max() and c.levels.max() >= z.min() and np.isclose(c.zmax, z.max()) and np.isclose(c.zmin, z.min()), "plotted-contour", lambda: "%s, values from %r to %r" % (c.levels, z.min(), z.max()))
    finally:
        plt.close('all')
    t.check(gen.snapshot(u) == s0, "plot-changed-state", lambda: str(gen.sdiff(s0, gen.snapshot(u))))
    t.check(true.tobytes() == a0, "plot-changed-argument", "")
    t.seen(("plot", d, sm > 0, bool(lim)))


def sec_live(t):
    """Hypothetical posteriors of an updater with a history are those of a new one with the same particles and weights."""
    spec = gen.lab(t.rng, z=(0, 2), zero=False) if t.rng.rand() < .6 else gen.any_spec(t.rng)
    eps = spec.eps(t.rng, int(t.rng.choice([1, 2, 4])))
    for u, ev, spec in live.walk(t, steps=6, nmax=15, spec=spec):
        v = live.twin(u); outs = spec.arr(spec.outs(eps[0])[:2])
        kw = dict(return_likelihood=True, return_normalization=True)
        for g, h in zip(u.hypothetical_update(outs, eps, **kw), v.hypothetical_update(outs, eps, **kw)):
            t.close(g, h, "stale-hypothetical", rtol=1e-11, atol=1e-15, msg="%s after %s" % (spec.name, ev))
        if t.rng.rand() < .3: eps = spec.eps(t.rng, int(t.rng.choice([1, 2, 4])))
        elif t.rng.rand() < .3: eps[:] = spec.eps(t.rng, len(eps))          # the same array, other experiments
        t.seen(("live", spec.name.split('(')[0], ev), 3)
    t.describe(spec.name); t.count("histories")


SECTIONS = [Section("live", sec_live, 400), Section("plots", sec_plots, 24), Section("hypothetical", sec_hyp, 240), Section("purity", sec_pure, 120), Section("interleaved", sec_between, 24), Section("memo", sec_memo, 80)]
