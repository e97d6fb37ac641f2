"""C04: resampling exactly when configured, and the accounting of it."""
import copy, warnings
import numpy as np
import qinfer as qi
from qinfer import ApproximationWarning, ResamplerWarning
from mon import gen
from mon.core import Section, Skip
from mon.c01 import pick

RULE = ("one observation = one event (datum, batch, forced resampling, reset) of a random history; a specification automaton predicts from the "
        "reference weights whether the recording resampler must be called and what every counter must read; distinct = (event, resampled?, threshold, interval, position)")


class SizedResampler(gen.RecordingResampler):
    """May change the particle number, as resamplers are allowed to."""
    def __init__(self, n=None):
        gen.RecordingResampler.__init__(self); self.n = n
    def __call__(self, model, dist, *a, **k):
        out = gen.RecordingResampler.__call__(self, model, dist)
        if self.n is not None:
            idx = np.arange(self.n) % dist.n_particles
            out = qi.ParticleDistribution(particle_locations=out.particle_locations[idx] , particle_weights=np.ones(self.n) / self.n)
        self.last = (np.array(out.particle_weights), np.array(out.particle_locations))
        return out


class Auto(object):
    """Specification automaton."""
    def __init__(self, t, u, rec, n, thresh, track):
        self.t, self.u, self.rec, self.thresh, self.track = t, u, rec, thresh, track
        self.count = 0; self.min_ess = n; self.just = None; self.n_data = 0

    def ess(self, w): return 1.0 / np.sum(w ** 2)

    def must(self, w):
        e, lim = self.ess(w), len(w) * self.thresh
        if abs(e - lim) < 1e-8 * len(w): raise Skip()
        return e < lim

    def agree(self, what):
        t, u = self.t, self.u
        t.check(u.resample_count == self.count, "resample-count", "%s: resample_count %d, %d resamplings happened" % (what, u.resample_count, self.count))
        t.check(len(self.rec.calls) == self.count, "resampler-calls", "%s: resampler called %d times, expected %d" % (what, len(self.rec.calls), self.count))
        if self.just is not None:
            t.check(bool(u.just_resampled) == self.just, "just-resampled", "%s: just_resampled %r, expected %r" % (what, u.just_resampled, self.just))
        t.check(abs(u.min_n_ess - self.min_ess) < 1e-7 * self.min_ess, "min-n-ess", "%s: min_n_ess %r, expected %r" % (what, u.min_n_ess, self.min_ess))
        w = np.array(u.particle_weights)
        t.check(abs(u.n_ess - self.ess(w)) < 1e-9 * self.ess(w), "n-ess", "n_ess %r, expected %r" % (u.n_ess, self.ess(w)))
        t.check(u.n_particles == len(w) == len(u.particle_locations), "particle-number", "")
        if self.track:
            t.check(len(u.resampling_divergences) == self.count, "divergence-log", "%s: %d divergences for %d resamplings" % (what, len(u.resampling_divergences), self.count))
        else:
            t.check(u.resampling_divergences is None, "divergence-log", "not tracking, but %r" % (u.resampling_divergences,))

    def resampled(self, w, x, warn_small=None):
        """Called when a resampling is due on the cloud (w, x)."""
        t, u = self.t, self.u
        self.count += 1; self.just = True
        t.check(len(self.rec.calls) == self.count, "missing-resample" if len(self.rec.calls) < self.count else "extra-resample",
                "resampler called %d times, expected %d (ess %.3f of %d, threshold %s)" % (len(self.rec.calls), self.count, self.ess(w), len(w), self.thresh))
        gw, gx = self.rec.calls[-1]
        t.close(gw, w, "resampler-input-weights", rtol=1e-7, atol=1e-12); t.close(gx, x, "resampler-input-locations", rtol=1e-9, atol=1e-12)
        nw, nx = self.rec.last
        t.same(np.array(u.particle_weights), nw, "resample-result-weights")
        if u._canonicalize if hasattr(u, "_canonicalize") else False:
            nx = u.model.canonicalize(nx)
        t.close(u.particle_locations, nx, "resample-result-locations", rtol=1e-12)
        if self.track:
            d = u.est_kl_divergence(qi.ParticleDistribution(particle_locations=gx, particle_weights=gw))
            t.check(np.array_equal([u.resampling_divergences[-1]], [d], equal_nan=True) or abs(u.resampling_divergences[-1] - d) < 1e-6 * (1 + abs(d)),
                    "divergence-value", "logged %r, divergence of new from old cloud is %r" % (u.resampling_divergences[-1], d))


def sec_history(t):
    canon = bool(t.rng.randint(2))
    spec = gen.lab(t.rng, z=(0, 2), step=bool(t.rng.randint(2)), canon=canon, spread=float(t.rng.choice([.5, 2.])))
    n = int(t.rng.choice([12, 25, 60])); thresh = float(t.rng.choice([0.0, 0.3, 0.5, 0.8, 0.97]))
    track = bool(t.rng.randint(2)); sized = t.rng.choice([None, None, 15, 40])
    rec = SizedResampler(sized)
    prior = spec.prior()
    kw = {}
    default_thresh = t.rng.rand() < .15
    if default_thresh: thresh = 0.5
    else: kw['resample_thresh'] = thresh
    u = qi.SMCUpdater(spec.model, n, prior, resampler=rec, track_resampling_divergence=track, canonicalize=canon, zero_weight_policy='error', **kw)
    t.describe("%s, n=%d, threshold %s, tracking %s, resampler size %s" % (spec.name, n, thresh, track, sized))
    A = Auto(t, u, rec, n, thresh, track)
    t.check(u.just_resampled in (True, False), "just-type", "")
    t.close(u.particle_weights, np.ones(n) / n, "initial-weights", rtol=1e-12)
    A.agree("start")
    for step in range(t.rng.randint(4, 14)):
        ev = t.rng.choice(['datum'] * 5 + ['nocheck', 'batch', 'batch', 'force', 'force', 'reset', 'reset_n', 'reset_keepw'])
        w, x = np.array(u.particle_weights), np.array(u.particle_locations)
        if ev in ('datum', 'nocheck', 'batch'):
            m = 1 if ev != 'batch' else t.rng.randint(1, 12)
            k = {'datum': 1, 'nocheck': 10 ** 9}.get(ev) or int(t.rng.choice([1, 2, 3, 5, 7]))
            eps = spec.eps(t.rng, m)
            if ev == 'batch':
                # run the batch datum by datum on copies to know which check points are due
                v = copy.deepcopy(u)
                st = np.random.get_state()
                outs = []; due = []; mins = []
                for i in range(m):
                    vw, vx = np.array(v.particle_weights), np.array(v.particle_locations)
                    o, L = pick(t, spec, vw, vx, eps[i]); outs.append(int(o))
                    pw = vw * L / (vw * L).sum()
                    v.update(int(o), eps[i:i + 1], check_for_resample=False)
                    mins.append(A.ess(pw))
                    if (i + 1) % k == 0:
                        if A.must(pw):
                            due.append(i); v.resample()
                np.random.set_state(st)
                if k == 5 and t.rng.rand() < .6: u.batch_update(np.array(outs), eps)
                else: u.batch_update(np.array(outs), eps, resample_interval=k)
                A.count += len(due); A.min_ess = min([A.min_ess] + mins)
                t.check(len(rec.calls) == A.count, "batch-resamplings", "%d resamplings, expected %d (batch of %d, interval %d)" % (len(rec.calls), A.count, m, k))
                A.just = bool(due) and due[-1] == m - 1
                t.close(u.particle_weights, v.particle_weights, "batch-result", rtol=1e-9)
                t.seen(("batch", m, k, len(due))); t.count("checkpoints predicted", m // k)
            else:
                o, L = pick(t, spec, w, x, eps[0])
                pw = w * L / (w * L).sum()
                px = spec.model.update_timestep(x, eps)[:, :, 0]
                due = ev == 'datum' and A.must(pw)
                u.update(int(o), eps, **({} if ev == 'datum' else dict(check_for_resample=False)))
                A.min_ess = min(A.min_ess, A.ess(pw)); A.just = False
                if due: A.resampled(pw, px)
                t.seen((ev, bool(due), thresh, min(step, 5))); t.count("checkpoints predicted")
        elif ev == 'force':
            was = A.just
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                u.resample()
            if was is not None:
                got = any(issubclass(q.category, ResamplerWarning) for q in ws)
                t.check(got == was, "double-resample-warning", "just_resampled %r but warning %r" % (was, got))
            A.resampled(w, x)
            t.seen(("force", was))
        else:
            k = len(prior.samples)
            st = gen.snapshot(u)
            if ev == 'reset': u.reset(); n2 = len(w)
            elif ev == 'reset_n':
                n2 = int(t.rng.choice([5, 12, 33])); u.reset(n2)
            else:
                u.reset(reset_weights=False); n2 = len(w)
            t.check(u.n_particles == n2 and len(u.particle_weights) == n2, "reset-size", "%s gives %d particles, %d weights" % (ev, u.n_particles, len(u.particle_weights)))
            t.check(len(prior.samples) > k and len(prior.samples[-1]) == n2, "reset-no-sample", "")
            want = spec.model.canonicalize(prior.samples[-1]) if canon else prior.samples[-1]
            t.close(u.particle_locations, want, "reset-locations", rtol=1e-12)
            if ev == 'reset_keepw': t.same(np.array(u.particle_weights), w, "reset-kept-weights")
            else: t.close(u.particle_weights, np.ones(n2) / n2, "reset-weights", rtol=1e-12)
            t.check(gen.snapshot(u)['data'] == st['data'] and gen.snapshot(u)['norms'] == st['norms'], "reset-history", "reset rewrote the data history")
            t.seen((ev, n2)); t.count("resets")
        A.agree(ev)
    t.count("resamplings seen", A.count)


def sec_args(t):
    spec = gen.lab(t.rng)
    u = qi.SMCUpdater(spec.model, 10, spec.prior(), resample_thresh=0)
    try:
        u.reset(n_particles=5, only_params=np.s_[:1])
        t.fail("reset-args", "reset accepted n_particles together with only_params")
    except ValueError: pass
    try:
        qi.SMCUpdater(spec.model, 10, spec.prior(), resampler=qi.LiuWestResampler(), resample_a=.9)
        t.fail("ctor-args", "accepted resampler together with resample_a")
    except ValueError: pass
    t.seen(("argument checks", spec.name))
    # partial reset: only the selected parameters are redrawn, with the documented weights
    if spec.model.n_modelparams > 1:
        d = spec.model.n_modelparams
        j = t.rng.randint(d); x = np.array(u.particle_locations)
        u2 = qi.SMCUpdater(spec.model, 10, u.prior, resample_thresh=0, canonicalize=False)
        for _ in range(t.rng.randint(4)):
            e = spec.eps(t.rng, 1); o, L = pick(t, spec, np.array(u2.particle_weights), np.array(u2.particle_locations), e[0])
            u2.update(int(o), e, check_for_resample=False)
        x = np.array(u2.particle_locations)
        w0 = t.rng.dirichlet(np.ones(10)); u2.particle_weights = w0.copy(); keepw = bool(t.rng.rand() < .3)
        u2.reset(only_params=np.s_[j:j + 1], **(dict(reset_weights=False) if keepw else {}))
        t.close(u2.particle_weights, w0 if keepw else np.ones(10) / 10, "reset-kept-weights" if keepw else "reset-weights", rtol=1e-12)
        keep = [i for i in range(d) if i != j]
        t.same(np.ascontiguousarray(u2.particle_locations[:, keep]), np.ascontiguousarray(x[:, keep]), "partial-reset-touched")
        t.same(np.ascontiguousarray(u2.particle_locations[:, j]), np.ascontiguousarray(u2.prior.samples[-1][:, j]), "partial-reset-sample")
        t.seen(("partial reset", d))


class BadCache(gen.LabModel):
    def clear_cache(self): raise RuntimeError("cache")


def sec_cache(t):
    m = BadCache(1, 2, t.rng.normal(size=(2, 6)))
    u = qi.SMCUpdater(m, 30, gen.FnPrior(lambda r, k: r.uniform(-1, 1, (k, 1)), 1), resample_thresh=.5)
    u.resample()
    t.check(u.resample_count == 1 and np.allclose(u.particle_weights, 1 / 30), "cache-error", "")
    t.seen("failing cache")


def sec_default_resampler(t):
    """Default configuration: Liu-West, constructor's particle number, threshold one half."""
    spec = gen.s_precession(t.rng)
    n = int(t.rng.choice([30, 100]))
    u = qi.SMCUpdater(spec.model, n, spec.prior(), canonicalize=bool(t.rng.randint(2)), **({} if t.rng.rand() < .5 else dict(resample_a=.9)))
    count = 0
    true = spec.mps(t.rng, 1)
    for i in range(8):
        e = spec.eps(t.rng, 1)
        o = int(t.rng.rand() < spec.pr(1, true[0], e[0]))
        w = np.array(u.particle_weights); L = np.array([spec.pr(o, x, e[0]) for x in u.particle_locations])
        if (w * L).sum() < 1e-6: raise Skip()
        pw = w * L / (w * L).sum(); ess = 1 / (pw ** 2).sum()
        if abs(ess - n / 2) < 1e-6: raise Skip()
        u.update(o, e)
        if ess < n / 2:
            count += 1
            t.close(u.particle_weights, np.ones(n) / n, "default-resample-weights", rtol=1e-12)
            t.check(np.all(spec.model.are_models_valid(u.particle_locations)), "default-resample-valid", "")
        else:
            t.close(u.particle_weights, pw, "default-no-resample", rtol=1e-8, atol=1e-13)
        t.check(u.resample_count == count and bool(u.just_resampled) == (ess < n / 2), "default-count", "ess %.2f of %d: count %d expected %d" % (ess, n, u.resample_count, count))
        t.seen(("default", ess < n / 2))


def sec_exact(t):
    """Effective sample sizes that are exactly representable, at and next to the threshold: 'below' excludes equality."""
    m = gen.LabModel(1, 2, np.zeros((2, 6))); rng = t.rng
    flat = lambda o, x, e: np.full((len(o), len(x), len(e)), .5)
    m.likelihood = flat
    n = int(rng.choice([2, 4, 8, 16, 64])); k = int(2 ** rng.randint(0, int(np.log2(n)) + 1))
    thresh = float(2. ** rng.randint(0, int(np.log2(n)) + 1) / n)
    rec = gen.RecordingResampler()
    u = qi.SMCUpdater(m, n, gen.FnPrior(lambda r, c: r.uniform(-1, 1, (c, 1)), 1), resampler=rec, resample_thresh=thresh)
    w = np.zeros(n); w[rng.permutation(n)[:k]] = 1. / k
    u.particle_weights[:] = w
    e = np.zeros(1, dtype=m.expparams_dtype)
    t.check(u.n_ess == k, "n-ess", lambda: "%r, exactly %d" % (u.n_ess, k))
    kind = rng.randint(3); due = k < thresh * n
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == 0: u.update(0, e)
        else: u.batch_update(np.zeros(kind, int), np.repeat(e, kind), resample_interval=kind)
    t.check(u.resample_count == len(rec.calls) == int(due), "missing-resample" if due else "extra-resample",
            lambda: "effective size exactly %d of %d, threshold %r: %d resamplings" % (k, n, thresh, u.resample_count))
    t.seen(("exact", n, k, thresh, kind))


def sec_debug(t):
    """Diagnostics (debug_resampling, a resampler's debug, DEBUG logging) report and do nothing else."""
    import logging
    spec = gen.any_spec(t.rng, finite=True); n = int(t.rng.choice([5, 20, 60])); thresh = float(t.rng.choice([.5, .9, 1.]))
    steps = [spec.eps(t.rng, 1) for _ in range(6)]; picks = t.rng.rand(6); seed = int(t.rng.randint(2 ** 31))
    canon, post = bool(t.rng.randint(2)), bool(t.rng.randint(2)); track = bool(t.rng.randint(2))
    def run(dbg):
        np.random.seed(seed)
        u = qi.SMCUpdater(spec.model, n, spec.prior(), resample_thresh=thresh, resampler=qi.LiuWestResampler(a=.95, postselect=post, debug=dbg), debug_resampling=dbg, canonicalize=canon, track_resampling_divergence=track)
        log = []
        for e, p in zip(steps, picks):
            outs = spec.outs(e[0])
            try: u.update(outs[int(p * len(outs))], e)
            except RuntimeError: break
            log.append((u.resample_count, bool(u.just_resampled)))
        return u, log
    lg = logging.getLogger('qinfer'); old = lg.level, lg.propagate; got = []
    class H(logging.Handler):
        def emit(self, r): got.append(r.getMessage())
    h = H()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: a, la = run(False)
        except Exception: raise Skip()      # a resampler refusing the cloud is not this section's subject
        lg.addHandler(h); lg.setLevel(logging.DEBUG); lg.propagate = False
        try: b, lb = run(True)
        finally: lg.removeHandler(h); lg.setLevel(old[0]); lg.propagate = old[1]
    t.check(la == lb, "diagnostics-change-run", lambda: "%s without, %s with (%s)" % (la, lb, spec.name))
    t.check(gen.snapshot(a) == gen.snapshot(b), "diagnostics-change-run", lambda: "%s: %s" % (spec.name, gen.sdiff(gen.snapshot(a), gen.snapshot(b))))
    t.count("debug records", len(got)); t.seen((spec.name.split('(')[0], b.resample_count > 0, canon, post, track))


SECTIONS = [Section("debug", sec_debug, 80), Section("exact", sec_exact, 60), Section("history", sec_history, 400), Section("arguments", sec_args, 40), Section("cache", sec_cache, 3),
            Section("default", sec_default_resampler, 40)]
