"""C18: performance tests record what actually happened in each trial.

Monitor: the true model, the heuristic and the updater handed to the heuristic
are instrumented; every event of a trial (experiment chosen, simulation call,
update with its start and stop, time step) goes to a log, and the returned
record array is audited line by line against that log.
"""
import copy, time
import numpy as np
import numpy.ma as ma
import qinfer as qi
from qinfer import perf_testing as pt
from .core import Section, Skip
from . import gen

RULE = ("an observation is one audited record (trial, experiment) or one fault-injected run; distinct means a different "
        "(model pair kind, options used, record index class, fault kind and place)")
ASSUMPTIONS = ["outcomes are integers: the documented record has an integer outcome field",
               "for time-dependent models the loss compares the estimate, which includes the time step, with the true parameters after the same step; "
               "the recorded true parameters are those that produced the datum, as documented",
               "timings are compared against clock readings taken just inside and just outside the update"]


class Boom(Exception):
    pass


class Log(object):
    def __init__(self): self.ev = []
    def add(self, *a): self.ev.append(a)


def instrument_true(model, log):
    m = copy.deepcopy(model)
    sim, step = m.simulate_experiment, m.update_timestep

    def simulate(mps, eps, repeat=1):
        r = sim(mps, eps, repeat=repeat)
        log.add("sim", np.array(mps), np.array(eps), np.array(r), repeat, time.time())
        return r

    def update_timestep(mps, eps):
        r = step(mps, eps)
        log.add("step", np.array(mps), np.array(eps), np.array(r))
        return r
    m.simulate_experiment, m.update_timestep = simulate, update_timestep
    return m


def make_heuristic(log, spec, rng, fault=None, own=None):
    class H(qi.Heuristic):
        def __init__(self, updater):
            self.up = updater; self.k = 0
            log.add("new", updater, np.array(updater.particle_locations), np.array(updater.particle_weights), np.geterr()['divide'])
            real = updater.update

            def update(outcome, expparams, *a, **k):
                t0 = time.time()
                try:
                    return real(outcome, expparams, *a, **k)
                finally:
                    log.add("upd", np.array(outcome), np.array(expparams), t0, time.time())
            updater.update = update

        def __call__(self):
            up = self.up
            log.add("exp", time.time(), up.est_mean().copy(), up.resample_count, len(up.data_record))
            if fault is not None: fault(self.k, up)
            if own is not None and own.rand() < .3: up.resample()      # an adaptive heuristic may resample before it designs
            e = spec.eps(rng, 1)
            self.k += 1
            log.add("chosen", e.copy())
            return e
    return H


POOL = [gen.s_precession, gen.s_inversion, gen.s_t2, gen.s_coin, gen.s_noisy, gen.s_ndie, gen.s_rb, gen.s_tomo,
        gen.s_binomial, gen.s_rw, gen.lab, gen.lab]


def kind(s): return s.name.split("(")[0]


def draw_setup(rng):
    """Estimation spec, true model, true parameter generator."""
    if rng.rand() < .3:           # different numbers of parameters, aligned at the right
        d1, d2 = int(rng.randint(1, 5)), int(rng.randint(1, 5)); K = int(rng.randint(2, 5))
        step = bool(rng.rand() < .4)
        a = gen.lab(rng, vary=False, step=step, zero=False, d=d1, K=K, Q=rng.uniform(.2, 3, d1))
        b = gen.lab(rng, vary=False, step=step, zero=False, d=d2, K=K)
        return a, b.model, b.mps, "mixed"
    s = POOL[rng.randint(len(POOL))](rng)
    if rng.rand() < .4:
        return s, copy.deepcopy(s.model), s.mps, "other"
    return s, None, s.mps, "same"


def audit(t, perf, log, spec, model, d_true, n_exp, n_particles, prior_draws, tag):
    """One trial's records against its log."""
    d_est = model.n_modelparams
    new = [e for e in log.ev if e[0] == "new"]
    t.check(len(new) == 1, "heuristics-built", "%d" % len(new))
    up = new[0][1]
    t.check(up.n_particles == n_particles and up.model is model, "updater-arguments", lambda: "%d particles" % up.n_particles)
    t.check(any(p.shape == new[0][2].shape and np.allclose(model.canonicalize(p.copy()), new[0][2]) for p in prior_draws),
            "prior-not-used", "initial particles are no draw of the prior")
    exps = [e for e in log.ev if e[0] == "exp"]; chosen = [e[1] for e in log.ev if e[0] == "chosen"]
    sims = [e for e in log.ev if e[0] == "sim"]; upds = [e for e in log.ev if e[0] == "upd"]; steps = [e for e in log.ev if e[0] == "step"]
    t.check(len(exps) == n_exp and len(sims) == n_exp and len(upds) == n_exp, "event-numbers",
            lambda: "%d experiments requested: %d designed, %d simulated, %d updates" % (n_exp, len(exps), len(sims), len(upds)))
    t.check(perf.shape == (n_exp,), "record-shape", lambda: str(perf.shape))
    est_after = [e[2] for e in exps[1:]] + [up.est_mean()]
    res_after = [e[3] for e in exps[1:]] + [up.resample_count]
    scalar = isinstance(model.expparams_dtype, str)
    k_min = min(d_est, d_true)
    Q = np.asarray(model.Q, float)[-k_min:]
    for k in range(n_exp):
        rec = perf[k]
        _, mps, eps, out, rep, tsim = sims[k]
        true = np.ravel(rec['true'])
        t.check(true.shape == (d_true,), "true-shape", lambda: str(true.shape))
        t.check(np.array_equal(np.atleast_2d(mps), true[None]) and rep == 1, "true-parameters",
                lambda: "experiment %d was simulated with %s, recorded true %s" % (k, mps, true))
        t.check(np.array_equal(eps, chosen[k]), "simulated-experiment", lambda: "experiment %d: simulated %s, designed %s" % (k, eps, chosen[k]))
        t.check(int(rec['outcome']) == int(np.ravel(out)[0]) == int(np.ravel(upds[k][1])[0]), "outcome",
                lambda: "experiment %d: simulated %s, updated with %s, recorded %s" % (k, out, upds[k][1], rec['outcome']))
        t.check(np.array_equal(upds[k][2], chosen[k]), "updated-experiment", lambda: "experiment %d: updated %s, designed %s" % (k, upds[k][2], chosen[k]))
        if scalar:
            t.check(rec['experiment'] == chosen[k][0], "recorded-experiment", lambda: "%r vs %r" % (rec['experiment'], chosen[k]))
        else:
            for f in [x[0] for x in model.expparams_dtype]:
                t.check(np.array_equal(rec[f], chosen[k][f][0]), "recorded-experiment", lambda: "field %s: %r vs %r" % (f, rec[f], chosen[k][f]))
        t.close(np.ravel(rec['est']), est_after[k], "estimate", rtol=1e-12, atol=0, msg="experiment %d" % k)
        t.check(int(rec['resample_count']) == res_after[k], "resample-count", lambda: "experiment %d: %d, actual %d" % (k, rec['resample_count'], res_after[k]))
        nxt = true if not steps else np.ravel(steps[k][3])
        if k + 1 < n_exp:
            t.check(np.array_equal(np.ravel(perf[k + 1]['true']), nxt), "true-timestep", lambda: "true parameters after experiment %d" % k)
        delta = est_after[k][-k_min:] - nxt[-k_min:]
        t.close(float(rec['loss']), float(np.sum(Q * delta ** 2)), "loss", rtol=1e-9, atol=1e-13, msg="experiment %d" % k)
        inner = upds[k][4] - upds[k][3]
        outer = (exps[k + 1][1] if k + 1 < n_exp else time.time()) - tsim
        t.check(inner - 1e-4 <= float(rec['elapsed_time']) <= outer + 1e-4, "elapsed-time",
                lambda: "recorded %r, the update took at least %r and at most %r" % (rec['elapsed_time'], inner, outer))
        t.seen(tag + (min(k, 2), bool(res_after[k])))
    t.check(len(up.data_record) == n_exp, "data-record", "")


def sec_single(t):
    rng = t.rng
    spec, true_model, true_draw, pair = draw_setup(rng)
    log = Log()
    model = spec.model
    d_true = (true_model or model).n_modelparams
    n_exp = int(rng.choice([1, 2, 3, 6])); n_p = int(rng.choice([5, 20, 60]))
    kw = {}
    if true_model is not None:
        tm = instrument_true(true_model, log); kw['true_model'] = tm
    else:
        # the model itself produces the data: hook it through a shallow subclass of its own type
        tm = instrument_true(model, log); kw['true_model'] = tm
    src = rng.randint(3)
    prior = spec.prior(); tprior = gen.FnPrior(true_draw, d_true)
    if src == 1 or pair == "mixed" and src == 0:
        kw['true_prior'] = tprior
    elif src == 2:
        m = true_draw(rng, 1); fixed = m[0].copy() if rng.rand() < .6 else m.copy()
        kw['true_mps'] = fixed
        if rng.rand() < .3: kw['true_prior'] = tprior
    rec = gen.RecordingResampler()
    if rng.rand() < .6:
        kw['extra_updater_args'] = dict(resample_thresh=float(rng.choice([0., .5, .9])), resampler=rec)
    kept = copy.deepcopy(kw.get('extra_updater_args', None)) if 'extra_updater_args' in kw else None
    slow = rng.rand() < .15
    if slow:
        lk, sm = model.likelihood, tm.simulate_experiment
        model.likelihood = lambda o, m_, e_: (time.sleep(.01), lk(o, m_, e_))[1]

    def fault(k, up):
        if slow: time.sleep(.02)
    t.describe((spec.name, pair, sorted(kw), n_exp, n_p))
    err0 = np.geterr()
    try:
        perf = qi.perf_test(model, n_p, prior, n_exp, make_heuristic(log, spec, rng, fault, rng if rng.rand() < .3 else None), **kw)
    except RuntimeError as e:
        if "particle weights are zero" in str(e).lower() or "weights" in str(e).lower(): raise Skip
        raise
    t.check(np.geterr() == err0, "numpy-errors-changed", "")
    audit(t, perf, log, spec, model, d_true, n_exp, n_p, prior.samples, (kind(spec), pair, tuple(sorted(kw))))
    first = np.ravel(perf[0]['true'])
    if src == 2:
        t.check(np.array_equal(first, np.ravel(fixed)), "true-mps-ignored", "")
    elif 'true_prior' in kw:
        t.check(any(np.array_equal(first, s[0]) for s in tprior.samples), "true-prior-ignored", "")
    else:
        t.check(any(len(s) == 1 and np.array_equal(first, s[0]) for s in prior.samples), "prior-not-source-of-truth", "")
    if kept is not None:
        thr = kept['resample_thresh']
        up = [e for e in log.ev if e[0] == "new"][0][1]
        t.check(up.resample_thresh == thr and (len(rec.calls) == up.resample_count), "updater-options", "extra_updater_args not passed on")


class Deferred(object):
    """Stand-ins for asynchronous apply: eager, lazy, or executed in another order."""
    def __init__(self, mode, rng): self.mode, self.rng, self.tasks, self.got = mode, rng, [], []

    def __call__(self, fn, *a, **k):
        task = dict(fn=fn, a=a, k=k, done=False)
        idx = len(self.tasks); self.tasks.append(task)
        if self.mode == "eager": self.run(task)
        outer = self

        class R(object):
            def get(self_, timeout=None):
                outer.got.append(idx)
                if outer.mode == "shuffled":
                    for i in outer.rng.permutation(len(outer.tasks)): outer.run(outer.tasks[i])
                outer.run(task)
                if 'exc' in task: raise task['exc']
                return task['val']
        return R()

    def run(self, task):
        if task['done']: return
        task['done'] = True
        try:
            task['val'] = task['fn'](*task['a'], **task['k'])
        except Exception as e:
            task['exc'] = e


class Bar(object):
    made = []
    def __init__(self): self.log = []; self.description = ""; Bar.made.append(self)
    def start(self, n): self.log.append(("start", n))
    def update(self, n): self.log.append(("update", n))
    def finished(self): self.log.append(("finished",))


def equal_records(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and all(np.array_equal(a[f], b[f]) for f in a.dtype.names)


def sec_multiple(t):
    rng = t.rng
    spec, true_model, true_draw, pair = draw_setup(rng)
    model = spec.model
    d_true = (true_model or model).n_modelparams
    n_tr = int(rng.choice([1, 2, 3, 5])); n_exp = int(rng.choice([1, 2, 4])); n_p = int(rng.choice([5, 20]))
    logs = []
    prior = spec.prior(); tprior = gen.FnPrior(true_draw, d_true)
    kw = {}
    if true_model is not None: kw['true_model'] = true_model
    if pair == "mixed" or rng.rand() < .4: kw['true_prior'] = tprior
    fixed = None
    if rng.rand() < .3: fixed = true_draw(rng, 1)[0]; kw['true_mps'] = fixed
    # faults: which trials fail, where and how
    n_bad = int(rng.choice([0, 0, 1, 1, 2]))
    bad = {int(i): (int(rng.randint(n_exp)), ["heuristic", "divide", "value"][rng.randint(3)]) for i in rng.permutation(n_tr)[:n_bad]}
    allow = bool(rng.rand() < .6)
    mode = ["serial", "eager", "lazy", "shuffled"][rng.randint(4)]
    captured = []

    class H(qi.Heuristic):
        n = 0
        def __init__(self, updater):
            self.trial = H.n; H.n += 1; self.k = 0; self.up = updater
            captured.append((updater, np.geterr()['divide']))
        def __call__(self):
            f = bad.get(self.trial)
            if f is not None and f[0] == self.k:
                if f[1] == "heuristic": raise Boom("trial %d" % self.trial)
                if f[1] == "divide": np.log(np.zeros(2))       # errors under the documented policy
                if f[1] == "value": raise ValueError("trial %d" % self.trial)
            self.k += 1
            return spec.eps(rng, 1)
    d = Deferred(mode, rng)
    results = {}
    if mode != "serial": kw['apply'] = d
    if allow or rng.rand() < .5: kw['allow_failures'] = allow
    bar = rng.rand() < .4
    if bar: Bar.made = []; kw['progressbar'] = Bar
    rec = gen.RecordingResampler(); policy = ['ignore', 'skip', 'warn'][rng.randint(3)]
    if rng.rand() < .5: kw['extra_updater_args'] = dict(resample_thresh=.8, resampler=rec, zero_weight_policy=policy)
    kept = dict(kw['extra_updater_args']) if 'extra_updater_args' in kw else None
    t.describe((spec.name, pair, n_tr, n_exp, bad, allow, mode))
    before = np.seterr(divide=['ignore', 'warn'][rng.randint(2)], invalid='ignore')
    err0 = np.geterr()
    # data that the estimation model calls impossible would make a trial fail by itself
    raised = None
    import qinfer.perf_testing as ptm
    real, ended = ptm.perf_test, []          # how each serial trial ended

    def watched(*a, **k):
        try: r = real(*a, **k)
        except Exception: ended.append(False); raise
        ended.append(True); return r
    if mode == "serial": ptm.perf_test = watched
    try:
        perf = qi.perf_test_multiple(n_tr, model, n_p, prior, n_exp, H, **kw)
    except (Boom, ValueError, FloatingPointError) as e:
        raised = e
    except RuntimeError as e:
        if "weights" in str(e).lower(): raise Skip
        raise
    finally:
        ptm.perf_test = real
    t.check(np.geterr() == err0, "numpy-errors-changed", lambda: "%s before, %s after (failure raised: %r)" % (err0, np.geterr(), raised))
    np.seterr(**before)
    if bar:
        b = Bar.made
        t.check(len(b) == 1 and b[0].log[0] == ("start", n_tr) and b[0].log[-1] == ("finished",), "progress-bar", lambda: str([x.log for x in b]))
    if kept is not None:
        t.check(kw['extra_updater_args'] == kept, "updater-args-changed", lambda: "%s" % kw['extra_updater_args'])
        for i, (up, _) in enumerate(captured):
            t.check(up.resample_thresh == .8 and up.resampler is rec and up._zero_weight_policy == policy if hasattr(up, '_zero_weight_policy') else up.resample_thresh == .8 and up.resampler is rec,
                    "updater-options", lambda: "trial %d was run without the given updater options" % i)
        t.check(len(rec.calls) == sum(up.resample_count for up, _ in captured), "updater-options", lambda: "%d calls of the given resampler, %s resamplings" % (len(rec.calls), [up.resample_count for up, _ in captured]))
    tag = (kind(spec), pair, mode, allow, len(bad), n_tr)
    if raised is not None and not allow and not bad and isinstance(raised, FloatingPointError):
        raise Skip     # the trial itself divided by zero
    if bad and not allow:
        t.check(raised is not None, "failure-swallowed", "trial failure not allowed, yet nothing was raised")
        t.seen(tag + ("raised", type(raised).__name__)); return
    if raised is not None:
        t.fail("failure-raised", "%r raised although failures are %s" % (raised, "allowed" if allow else "absent"))
    t.check(perf.shape == (n_tr, n_exp), "shape", lambda: "%s, expected %s" % (perf.shape, (n_tr, n_exp)))
    # with failures allowed, a trial may also fail by itself (a division by zero)
    task_of = {i: task for i, task in enumerate(d.tasks)} if mode != "serial" else None
    ordered = captured
    for i in range(n_tr):
        if task_of is not None:
            failed = 'exc' in task_of[i]
        else:
            up = ordered[i][0]; failed = len(up.data_record) < n_exp
            if len(ended) == n_tr: failed = not ended[i]
            elif not failed and np.all([np.all(perf.mask[f][i]) for f in perf.dtype.names] if allow else [False]): continue   # may have failed after its last datum
        if mode in ("serial", "eager", "lazy"):
            t.check((i in bad) <= failed, "fault-not-injected", "")
        masked = bool(allow and np.all([perf.mask[f][i].all() for f in perf.dtype.names]))
        clear = not allow or not np.any([np.any(perf.mask[f][i]) for f in perf.dtype.names])
        if failed:
            t.check(masked, "failed-trial-not-masked", "trial %d" % i)
        else:
            t.check(clear, "good-trial-masked", "trial %d" % i)
            got = ma.getdata(perf)[i]
            if task_of is not None:
                t.check(equal_records(got, task_of[i]['val']), "trial-record", lambda: "row %d is not the record of trial %d" % (i, i))
            else:
                up = ordered[i][0]
                t.check([int(np.ravel(o)[0]) for o in up.data_record] == [int(o) for o in got['outcome']], "trial-record", "outcomes of row %d" % i)
                t.close(np.ravel(got['est'][-1]), up.est_mean(), "trial-record", rtol=1e-12, atol=0)
            if fixed is not None:
                t.check(np.array_equal(np.ravel(got['true'][0]), fixed), "true-mps-ignored", "")
            t.seen(tag + ("row", min(i, 2)))
        if failed: t.seen(tag + ("masked",))
    if mode == "serial":
        t.check(all(e == 'raise' for _, e in captured), "divide-policy", "divisions by zero are not exceptions during trials")
    if fixed is None and n_tr > 1:
        firsts = [bytes(np.ravel(ma.getdata(perf)[i]['true'][0])) for i in range(n_tr)
                  if not (allow and perf.mask['loss'][i].all())]
        if kind(spec) != "Coin" or True:
            t.check(len(set(firsts)) == len(firsts), "trials-share-truth", "trials did not draw their own true parameters")


def sec_timing(t):
    rng = t.rng
    # numpy_err_policy restores in every case
    base = np.seterr(all='ignore')
    modes = {k: ['ignore', 'warn', 'raise'][rng.randint(3)] for k in ('divide', 'over', 'under', 'invalid')}
    np.seterr(**modes); old = np.geterr()
    fields = [f for f in ('divide', 'over', 'under', 'invalid') if rng.rand() < .6]
    kw = {f: ['ignore', 'warn', 'raise'][rng.randint(3)] for f in fields}
    boom = rng.rand() < .5
    try:
        with pt.numpy_err_policy(**kw):
            inside = np.geterr()
            if boom: raise Boom
    except Boom:
        pass
    after = np.geterr()
    np.seterr(**base)
    t.check(inside == dict(old, **kw), "policy-inside", lambda: "%s" % inside)
    t.check(after == old, "policy-after", lambda: "%s before, %s after (exception: %s)" % (old, after, boom))
    t.seen(("policy", tuple(sorted(fields)), bool(boom)))
    # timing blocks
    t0 = time.time()
    with qi.timing() as tm:
        a = time.time(); time.sleep(.002); b = time.time()
    t1 = time.time(); d1 = tm.delta_t; time.sleep(.003); d2 = tm.delta_t
    t.check(b - a - 1e-4 <= d1 <= t1 - t0 + 1e-4, "timing", lambda: "%r not in [%r, %r]" % (d1, b - a, t1 - t0))
    t.check(d1 == d2, "timer-keeps-running", "")
    t.check(str(tm).endswith("elapsed"), "timer-str", str(tm))
    t.seen("timing")


SECTIONS = [
    Section("single", sec_single, 150),
    Section("multiple", sec_multiple, 200),
    Section("timing", sec_timing, 30),
]
