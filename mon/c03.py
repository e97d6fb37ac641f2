"""C03: impossible data are handled by the configured policy (fault injection into histories)."""
import copy, warnings
import numpy as np
import qinfer as qi
from qinfer import ApproximationWarning
from mon import gen
from mon.core import Section, Skip
from mon.c01 import pick

RULE = ("one observation = one datum of a history with injected impossible data, checked against the policy automaton (exception, warnings, state before/after); "
        "distinct = (policy, kind of impossibility, threshold, position in history)")
POL = ['error', 'warn', 'ignore', 'skip', 'reset']


class ImpossibleModel(gen.LabModel):
    """Lab model whose likelihood is scaled to `scale` when e['z'] == 7 (0: exactly impossible)."""
    scale = 0.0
    def likelihood(self, outcomes, modelparams, expparams):
        base = np.array(expparams); bad = base['z'] == 7
        base['z'][bad] = 0
        half = base['z'] == 8; base['z'][half] = 0
        L = super(ImpossibleModel, self).likelihood(outcomes, modelparams, base)
        L[:, :, bad] *= self.scale
        if np.any(half): L[:, :, half] *= (modelparams[:, 0] > 0)[None, :, None]
        return L
    def ref(self, o, x, e):
        e = e.copy(); half = e['z'] == 8
        if half: e['z'] = 0
        p = super(ImpossibleModel, self).ref(o, x, e)
        return p * (x[0] > 0) if half else p


def sec_policy(t):
    d = t.rng.randint(1, 4); K = 2
    m = ImpossibleModel(d, K, t.rng.normal(size=(d + 1, 6)), step=bool(t.rng.randint(2)))
    policy = POL[t.idx % 5]
    # 'thresh' is compared with the normalised weights: below machine precision a datum counts as impossible
    kind = t.rng.choice(['zero', 'tiny'])
    m.scale = 0.0 if kind == 'zero' else 10.0 ** t.rng.uniform(-120, -40)
    thresh = None if t.rng.rand() < .5 else 10.0 ** t.rng.uniform(-14, -3)
    if kind == 'zero' and t.rng.rand() < .2: thresh = t.rng.choice([0.0, 0])        # only a total of exactly zero is impossible
    n = int(t.rng.choice([2, 7, 30]))
    def draw(r, k): return r.uniform(-1, 1, (k, d))
    prior = gen.FnPrior(draw, d)
    rec = gen.RecordingResampler()
    kw = dict(zero_weight_policy=policy)
    if thresh is not None: kw['zero_weight_thresh'] = thresh
    if policy == 'error' and t.rng.rand() < .5: del kw['zero_weight_policy']      # documented default
    u = qi.SMCUpdater(m, n, prior, resampler=rec, resample_thresh=0.0, **kw)
    t.describe("policy %s, %s impossibility, threshold %s, %d particles" % (policy, kind, thresh, n))
    length = t.rng.randint(2, 9)
    bad = set(t.rng.choice(length, t.rng.randint(1, length), replace=False))
    norms = 0
    for i in range(length):
        e = np.zeros(1, dtype=m.expparams_dtype); e['a'] = t.rng.uniform(-1, 1)
        o = int(t.rng.randint(2))
        via_batch = t.rng.rand() < .3
        w0, x0 = np.array(u.particle_weights), np.array(u.particle_locations)
        c0 = (u.resample_count, len(rec.calls), float(u.min_n_ess), len(u.normalization_record), len(prior.samples))
        if i in bad:
            e['z'] = 7
            raised = None
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                np.seterr(all='ignore')
                try:
                    if via_batch: u.batch_update(np.array([o]), e)
                    else: u.update(o, e)
                except Exception as ex:
                    raised = ex
            zero_warn = [w for w in ws if issubclass(w.category, ApproximationWarning) and 'weights are zero' in str(w.message)]
            if policy == 'error':
                t.check(isinstance(raised, RuntimeError), "error-policy", "impossible datum did not raise RuntimeError but %r" % (raised,))
                t.same(u.particle_weights, w0, "error-changed-weights"); t.same(u.particle_locations, x0, "error-changed-locations")
            else:
                t.check(raised is None, "policy-raised", "policy %s raised %r" % (policy, raised))
            if policy in ('warn', 'reset'):
                t.check(len(zero_warn) >= 1, "no-warning", "policy %s gave no ApproximationWarning" % policy)
            if policy in ('ignore', 'skip'):
                t.check(not zero_warn, "not-silent", "policy %s warned: %s" % (policy, [str(w.message) for w in zero_warn]))
            if policy == 'skip':
                t.same(u.particle_weights, w0, "skip-changed-weights"); t.same(u.particle_locations, x0, "skip-changed-locations")
                t.check((u.resample_count, len(rec.calls), float(u.min_n_ess), len(u.normalization_record)) == c0[:4], "skip-changed-record", "")
            if policy == 'reset':
                t.check(u.n_particles == n, "reset-size", "")
                t.close(u.particle_weights, np.ones(n) / n, "reset-weights", rtol=1e-12, msg="weights after reset: %s" % np.array(u.particle_weights)[:5])
                t.check(len(prior.samples) > c0[4], "reset-no-sample", "no fresh prior sample drawn")
                t.same(np.ascontiguousarray(u.particle_locations), prior.samples[-1], "reset-locations")
            if policy in ('warn', 'ignore'):
                t.check(np.all(np.isfinite(u.particle_weights)) and np.sum(u.particle_weights) <= max(1e-12, thresh or 0), "ignored-weights",
                        "weights were not updated by the impossible datum: %s" % np.array(u.particle_weights)[:5])
                t.check(len(u.normalization_record) == c0[3] + 1, "ignored-record", "")
            t.seen((policy, kind, thresh is None, min(i, 4), via_batch)); t.count("impossible data injected")
            t.check(len(rec.calls) == c0[1], "resampled-on-impossible", "") if policy in ('skip', 'error', 'reset') else None
            if policy in ('warn', 'ignore'):
                return          # the caller asked to go on with a dead cloud
        else:
            if t.rng.rand() < .3 and len(set(np.asarray(x0)[:, 0] > 0)) == 2 and np.any(w0[x0[:, 0] > 0] > 1e-6):
                e['z'] = 8          # rules out the particles with a negative first parameter, only those
                t.count("data ruling out some particles")
            L = np.array([m.ref(o, x, e[0]) for x in x0])
            want = w0 * L; want /= want.sum()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                u.update(o, e)
            t.check(not [w for w in ws if 'weights are zero' in str(w.message)], "policy-on-possible", "policy fired on a possible datum")
            t.close(u.particle_weights, want, "bayes-after-policy", rtol=1e-8, atol=1e-13, msg="policy %s, datum %d" % (policy, i))
            t.check(len(u.normalization_record) == c0[3] + 1, "record-after-policy", "")
            if m._step:
                t.close(u.particle_locations, 0.9 * x0 + 0.05 * e['a'][0], "timestep-after-policy", rtol=1e-12)
            else:
                t.same(u.particle_locations, x0, "locations-after-policy")
            t.seen((policy, "possible", min(i, 4))); t.count("possible data checked")


def sec_threshold(t):
    """Small but possible total likelihoods never trigger the policy."""
    d = 1
    m = ImpossibleModel(d, 2, t.rng.normal(size=(2, 6)))
    m.scale = 10.0 ** t.rng.uniform(-12, 0)
    n = int(t.rng.choice([3, 20]))
    policy = POL[t.idx % 5]
    kw = {} if t.rng.rand() < .5 else dict(zero_weight_thresh=10.0 ** t.rng.uniform(-14, -2))
    if t.rng.rand() < .15:         # a threshold of zero: only a total of exactly zero is impossible
        kw = dict(zero_weight_thresh=float(0))
    tiny = 'zero_weight_thresh' in kw and kw['zero_weight_thresh'] == 0 and t.rng.rand() < .6
    if tiny: m.scale = 10. ** t.rng.uniform(-30, -17)       # far below any default threshold, yet above the one asked for
    wide = t.rng.rand() < .4       # many particles: the total is above the threshold, no single weight is
    if wide:
        m.scale = t.rng.uniform(.5, 1); n = int(t.rng.choice([100, 400])); kw = dict(zero_weight_thresh=10. / n)
    u = qi.SMCUpdater(m, n, gen.FnPrior(lambda r, k: r.uniform(-1, 1, (k, 1)), 1), resample_thresh=0.0, zero_weight_policy=policy, **kw)
    for i in range(3):
        e = np.zeros(1, dtype=m.expparams_dtype); e['a'] = 1.; e['z'] = 7
        w0 = np.array(u.particle_weights); x0 = np.array(u.particle_locations)
        e0 = e.copy(); e0['z'] = 0
        L = np.array([m.ref(1, x, e0[0]) for x in x0]) * m.scale
        if wide and (w0 * L).sum() < 1.5 * kw['zero_weight_thresh']: return
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            u.update(1, e)
        t.check(not [w for w in ws if 'weights are zero' in str(w.message)], "policy-on-small", "fired at total likelihood %.1e" % (w0 * L).sum())
        if tiny:           # totals below machine precision are not normalised; that the policy stays silent and the datum counts is what is judged
            t.check(len(u.normalization_record) == i + 1 and len(u.data_record) == i + 1 and np.sum(u.particle_weights) > 0, "policy-on-small", "datum dropped")
            t.seen((policy, 'threshold zero')); return
        t.close(u.particle_weights, w0 * L / (w0 * L).sum(), "bayes-small", rtol=1e-8, atol=1e-13)
        t.close(np.ravel(u.normalization_record[-1])[0], (w0 * L).sum(), "norm-small", rtol=1e-8, atol=0)
        t.seen((policy, round(np.log10(m.scale))))


def sec_invalid(t):
    m = ImpossibleModel(1, 2, t.rng.normal(size=(2, 6)))
    u = qi.SMCUpdater(m, 5, gen.FnPrior(lambda r, k: r.uniform(-1, 1, (k, 1)), 1), zero_weight_policy='bogus')
    e = np.zeros(1, dtype=m.expparams_dtype); e['a'] = 1.; e['z'] = 7
    try:
        u.update(0, e)
    except ValueError:
        t.seen("invalid policy"); return
    t.fail("invalid-policy-accepted", "no ValueError for an unknown policy")


SECTIONS = [Section("policy", sec_policy, 400), Section("threshold", sec_threshold, 120), Section("invalid", sec_invalid, 2)]
