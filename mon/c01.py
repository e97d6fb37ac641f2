"""C01: each datum updates the posterior by Bayes' rule (online checker on every update)."""
import copy, itertools, math
import numpy as np
import qinfer as qi
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one datum applied to a live updater and compared with the weights, locations, evidence and "
        "records computed from the documented law in plain Python; distinct = (model family, outcome type, history position, resampled?)")
ASSUMPTIONS = ["data whose total likelihood is at or below the zero-weight threshold are left to C03"]


def pick(t, spec, w, x, e, tries=20):
    """An outcome with non-negligible posterior probability, and its reference likelihood vector."""
    if spec.continuous:
        for _ in range(tries):
            j = t.rng.choice(len(w), p=w / w.sum())
            k = spec.k
            u = t.rng.randint(2)
            o = float(x[j, k + u] + np.sqrt(x[j, k + 2 + u]) * t.rng.normal())
            L = np.array([spec.pr(o, xi, e) for xi in x])
            if (w * L).sum() > 1e-9: return o, L        # the branch may be impossible here
        raise Skip()
    outs = spec.outs(e)
    for i in t.rng.permutation(len(outs)):
        o = spec.arr([outs[i]])[0]
        L = np.array([spec.pr(o, xi, e) for xi in x])
        if (w * L).sum() > 1e-6:
            return o, L
    raise Skip()


class Watch(object):
    """Online Bayes monitor: predicts the state after each datum and compares."""
    def __init__(self, t, spec, u, rec):
        self.t, self.spec, self.u, self.rec = t, spec, u, rec
        self.n_data = len(u.data_record); self.norms = [float(np.asarray(v).ravel()[0]) for v in u.normalization_record]
        self.data = list(u.data_record)

    def step(self, o, e, L, apply, key):
        t, u, spec = self.t, self.u, self.spec
        w0 = np.array(u.particle_weights); x0 = np.array(u.particle_locations)
        calls0 = len(self.rec.calls)
        want = w0 * L
        Z = want.sum(); want = want / Z
        st = np.random.get_state()
        if spec.static:
            x1 = x0
        else:
            # the model's own rule, evaluated on the same random stream (for models whose
            # likelihood draws nothing, which holds for every family used here)
            x1 = spec.model.update_timestep(np.array(x0), np.array(e))[:, :, 0]
            np.random.set_state(st)
        apply(o, e)
        resampled = len(self.rec.calls) > calls0
        if resampled:
            gw, gx = self.rec.calls[calls0]
            t.check(len(self.rec.calls) == calls0 + 1, "double-resample", "resampler called twice for one datum")
        else:
            gw, gx = u.particle_weights, u.particle_locations
        t.close(gw, want, "bayes-weights", rtol=1e-8, atol=1e-13, msg="%s outcome %r" % (spec.name, o))
        t.check(abs(np.sum(gw) - 1) < 1e-9, "weights-sum", "sum of weights is %r" % np.sum(gw))
        if spec.static:
            t.same(np.asarray(gx), x1, "locations-moved", spec.name)
        else:
            t.close(gx, x1, "timestep-locations", rtol=1e-12, atol=1e-14, msg=spec.name)
        self.norms.append(Z); self.data.append(o)
        self.records()
        t.seen((spec.name.split('(')[0], type(o).__name__, min(len(self.data), 12), resampled) + key)
        t.count("data checked"); t.count("resamplings seen", int(resampled))

    def records(self):
        t, u = self.t, self.u
        got = u.normalization_record
        t.check(len(got) == len(self.norms), "normalization-length", "%d records for %d data" % (len(got), len(self.norms)))
        g = np.array([float(np.asarray(v).ravel()[0]) for v in got])
        t.check(all(np.size(v) == 1 for v in got), "normalization-shape", "")
        t.close(g, np.array(self.norms), "normalization", rtol=1e-8, atol=1e-13)
        t.check(abs(u.log_total_likelihood - np.sum(np.log(self.norms))) < 1e-7 * (1 + len(self.norms)), "log-total-likelihood",
                "got %r, expected %r" % (u.log_total_likelihood, np.sum(np.log(self.norms))))
        dr = u.data_record
        t.check(len(dr) == len(self.data) and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(dr, self.data)),
                "data-record", lambda: "record %r, expected %r" % (dr, self.data))


def make(t, spec, n=None, **kw):
    n = n or int(t.rng.choice([2, 5, 17, 40, 60]))
    rec = gen.RecordingResampler()
    kw.setdefault("resample_thresh", t.rng.choice([0.0, 0.0, 0.5, 0.9]))
    u = qi.SMCUpdater(spec.model, n, spec.prior(), resampler=rec, canonicalize=kw.pop("canonicalize", False), **kw)
    if t.rng.rand() < .4:
        u.particle_weights = gen.weights(t.rng, n)
    return u, rec


def form(t, o):
    """The same outcome in the forms a caller may use."""
    if isinstance(o, (np.void,)):
        return o
    if isinstance(o, (int, np.integer)):
        return [int(o), np.int64(o), np.array([int(o)])][t.rng.randint(3)]
    return [float(o), np.array([o])][t.rng.randint(2)]


def history(t, spec, length):
    u, rec = make(t, spec)
    t.describe("%s, %d particles, %d data" % (spec.name, u.n_particles, length))
    wt = Watch(t, spec, u, rec)
    for i in range(length):
        e = spec.eps(t.rng, 1)
        o, L = pick(t, spec, u.particle_weights, u.particle_locations, e[0])
        o = form(t, o)
        wt.step(o, e, L, lambda o, e: u.update(o, e), ("single",))


def sec_lab(t):
    history(t, gen.lab(t.rng, z=(0, 0, 0, 2)), t.rng.randint(3, 15))


def sec_zoo(t):
    pool = gen.BASE + gen.DERIVED + [gen.s_gauss]
    history(t, pool[t.idx % len(pool)](t.rng), t.rng.randint(2, 7))


def sec_batch(t):
    """A batch is the same data one by one (checked datum by datum through a spy on update)."""
    r = t.rng.rand()
    spec = gen.lab(t.rng, z=(0, 2)) if r < .5 else gen.s_precession(t.rng) if r < .6 else gen.any_spec(t.rng) if r < .85 else gen.s_gauss(t.rng)
    u, rec = make(t, spec)
    wt = Watch(t, spec, u, rec)
    n = t.rng.randint(1, 13)
    k = int(t.rng.choice([1, 2, 3, 5, 50]))
    # choose data against the evolving posterior of a reference (Bayes + model step), so that none is impossible
    eps = spec.eps(t.rng, n)
    if t.rng.rand() < .3: eps = eps[np.sort(t.rng.randint(0, max(1, n // 3), n))]      # the same experiment several times in a row
    w = np.array(u.particle_weights); x = np.array(u.particle_locations)
    outs = []; ref = []
    if not spec.static and not isinstance(spec.model, gen.LabModel):
        raise Skip()
    for i in range(n):
        o, L = pick(t, spec, w, x, eps[i])
        outs.append(o)
        w = w * L; Z = w.sum(); w = w / Z
        if not spec.static:
            x = spec.model.update_timestep(x, eps[i:i + 1])[:, :, 0]
        ref.append((Z, w.copy(), x.copy()))
    outcomes = spec.arr(outs)
    u.resample_thresh = 0.0
    o0, e0 = outcomes.tobytes(), eps.tobytes()
    u.batch_update(outcomes, eps, resample_interval=k)
    t.check(outcomes.tobytes() == o0 and eps.tobytes() == e0, "batch-arguments-modified", "")
    t.close(u.particle_weights, ref[-1][1], "batch-weights", rtol=1e-7, atol=1e-12, msg="%s, %d data" % (spec.name, n))
    t.close(u.particle_locations, ref[-1][2], "batch-locations", rtol=1e-10, atol=1e-12)
    wt.norms += [r[0] for r in ref]; wt.data += list(outcomes)
    wt.records()
    t.seen(("batch", n, k, spec.name.split('(')[0]), n); t.count("data checked", n)
    # with resampling on: same RNG state, same resampler behaviour, one by one with explicit checks
    spec2 = spec
    ua, ra = make(t, spec2, n=30, resample_thresh=0.7)
    ub = copy.deepcopy(ua); rb = ub.resampler
    st = np.random.get_state()
    ok = []
    try:
        ua.batch_update(outcomes, eps, resample_interval=k)
    except RuntimeError:
        ok.append(0)       # impossible datum for this other cloud: both must agree
    np.random.set_state(st)
    try:
        for i in range(n):
            ub.update(outcomes[i], eps[i:i + 1], check_for_resample=(i + 1) % k == 0)
    except RuntimeError:
        ok.append(1)
    t.check(len(ok) in (0, 2), "batch-vs-single-error", "only one of batch and single raised")
    t.same(ua.particle_weights, ub.particle_weights, "batch-vs-single", "%s interval %d" % (spec.name, k))
    t.same(ua.particle_locations, ub.particle_locations, "batch-vs-single-locations", "%s interval %d" % (spec.name, k))
    t.check(len(ra.calls) == len(rb.calls), "batch-resample-count", "")
    t.seen(("batch-resampling", len(ra.calls) > 0, k))


def sec_batch_mismatch(t):
    spec = gen.lab(t.rng)
    u, rec = make(t, spec)
    a, b = t.rng.randint(1, 5), t.rng.randint(1, 5)
    if a == b: b += 1
    s0 = gen.snapshot(u)
    try:
        u.batch_update(np.zeros(a, dtype=int), spec.eps(t.rng, b))
    except ValueError:
        t.check(gen.snapshot(u) == s0, "mismatch-changed-state", "")
        t.seen(("mismatch", a, b)); return
    t.fail("mismatch-accepted", "batch_update accepted %d outcomes with %d experiments" % (a, b))


def sec_order(t):
    """Static models: the posterior does not depend on the order of the data."""
    spec = gen.lab(t.rng, step=False, zero=False) if t.rng.rand() < .5 else gen.any_spec(t.rng, static=True)
    n = int(t.rng.choice([5, 20, 50])); m = t.rng.randint(2, 9)
    u, rec = make(t, spec, n=n, resample_thresh=0.0)
    v = copy.deepcopy(u)
    data = []
    for i in range(m):
        e = spec.eps(t.rng, 1)
        o, L = pick(t, spec, u.particle_weights, u.particle_locations, e[0])
        u.update(o, e); data.append((o, e))
    perm = t.rng.permutation(m)
    if t.rng.rand() < .3: perm = np.arange(m)[::-1]
    try:
        for i in perm: v.update(*data[i])
    except RuntimeError:
        raise Skip()
    lu, lv = u.log_total_likelihood, v.log_total_likelihood
    t.close(v.particle_weights, u.particle_weights, "order-dependence", rtol=1e-6, atol=1e-12, msg=spec.name)
    t.check(abs(lu - lv) < 1e-7 * (1 + abs(lu)), "order-evidence", "%r vs %r" % (lu, lv))
    t.seen(("order", spec.name.split('(')[0], m))


def sec_disturbed(t):
    """The same law whatever happened between two data: queries about the coming datum, resets, explicit
    resampling, particles or weights replaced or edited in place, reused argument arrays, a shared model."""
    rng = t.rng
    for _ in range(20):
        spec = gen.lab(rng, z=(0, 2)) if rng.rand() < .5 else gen.any_spec(rng)
        if not spec.continuous: break
    u, rec = make(t, spec, n=int(rng.choice([3, 17, 40])), resample_thresh=0.0)
    other = qi.SMCUpdater(spec.model, 11, spec.prior(), resample_thresh=0.)
    wt = Watch(t, spec, u, rec); d = spec.model.n_modelparams
    e = spec.eps(rng, 1); names = []
    for i in range(int(rng.randint(3, 9))):
        if rng.rand() < .6:
            new = spec.eps(rng, 1)
            if rng.rand() < .5: e[:] = new            # the caller reuses its array
            else: e = new
        o, L = pick(t, spec, u.particle_weights, u.particle_locations, e[0])
        for act in rng.choice(['hyp', 'risk', 'reset', 'partial', 'keep-weights', 'size', 'resample', 'inplace', 'inplace-w', 'replace', 'shared', 'clear', 'none'], size=rng.randint(1, 4)):
            if act == 'hyp': u.hypothetical_update(np.array([o]), e)
            elif act == 'risk':
                if not spec.name.startswith('MLE'): u.bayes_risk(e); u.expected_information_gain(e)
            elif act == 'reset': u.reset()
            elif act == 'partial':
                j = int(rng.randint(d)); u.reset(only_params=np.s_[j:j + 1])
            elif act == 'keep-weights': u.reset(reset_weights=False)
            elif act == 'size': u.reset(int(rng.randint(3, 30)))
            elif act == 'resample':
                u.resampler, keep = qi.LiuWestResampler(), u.resampler
                try: u.resample()
                finally: u.resampler = keep
            elif act == 'inplace': u.particle_locations[:, :] = spec.mps(rng, u.n_particles)
            elif act == 'inplace-w': u.particle_weights[:] = gen.weights(rng, u.n_particles)
            elif act == 'replace': u.particle_locations = np.array(spec.mps(rng, u.n_particles), dtype=float)
            elif act == 'shared':
                try: other.update(o, e)
                except RuntimeError: other.reset()
            elif act == 'clear': spec.model.clear_cache()
            names.append(str(act))
        ref = spec
        while ref.name.startswith('MLE'): ref = ref.base
        tab = ref.table(ref.arr(ref.outs(e[0])), u.particle_locations, e)
        lawful = tab.min() >= 0 and np.allclose(tab.sum(axis=0), 1, rtol=0, atol=1e-12)   # the documented law applies to these particles
        if not lawful or not np.all(spec.model.are_models_valid(u.particle_locations)): u.particle_locations = np.array(spec.mps(rng, u.n_particles), dtype=float)
        L = np.array([spec.pr(o, x, e[0]) for x in u.particle_locations])
        if (u.particle_weights * L).sum() < 1e-6: u.particle_weights = np.ones(u.n_particles) / u.n_particles
        if (u.particle_weights * L).sum() < 1e-6: continue
        wt.step(form(t, o), e, L, lambda o, e: u.update(o, e), tuple(names[-2:]))
    t.describe("%s: %s" % (spec.name, names))


def sec_long(t):
    """Hundreds of data, total likelihood far below the smallest double."""
    import math
    rng = t.rng; n = int(rng.choice([2, 7, 25])); m = int(rng.choice([300, 700, 1500]))
    spec = gen.lab(rng, step=False, zero=False, vary=False) if rng.rand() < .5 else [gen.s_precession, gen.s_coin, gen.s_ndie, gen.s_rb][rng.randint(4)](rng)
    u, rec = make(t, spec, n=n, resample_thresh=0.0)
    x = np.array(u.particle_locations); w = np.array(u.particle_weights); eps = spec.eps(rng, 12); outs = [spec.outs(eps[k]) for k in range(12)]
    tab = {}
    for k in range(12):
        for o in outs[k]: tab[k, o] = np.array([spec.pr(spec.arr([o])[0], xi, eps[k]) for xi in x])
    logs = []; batch = rng.rand() < .5; bo, be = [], []
    for i in range(m):
        k = int(rng.randint(12)); cand = [(float((w * tab[k, o]).sum()), o) for o in outs[k]]
        cand = [c for c in cand if c[0] > 1e-3]
        Z, o = min(cand) if rng.rand() < .5 else cand[rng.randint(len(cand))]
        w = w * tab[k, o] / Z; logs.append(math.log(Z)); bo.append(o); be.append(k)
        if not batch: u.update(o, eps[k:k + 1])
    if batch: u.batch_update(spec.arr(bo), eps[be], resample_interval=int(rng.choice([1, 5, 100])))
    want = math.fsum(logs)
    t.describe("%s, %d data, log evidence %.1f" % (spec.name, m, want))
    t.close(u.particle_weights, w, "long-weights", rtol=1e-5, atol=1e-9, msg=spec.name)
    t.check(len(u.data_record) == m and len(u.normalization_record) == m, "long-records", "%d, %d for %d data" % (len(u.data_record), len(u.normalization_record), m))
    t.check(abs(float(u.log_total_likelihood) - want) < 1e-6 * (1 + abs(want)), "log-total-likelihood", lambda: "%r after %d data, expected %r" % (u.log_total_likelihood, m, want))
    t.seen((spec.name.split('(')[0], m, n, batch, want < -745), m)


class Faint(qi.FiniteOutcomeModel):
    """Outcome 1 is very improbable under every parameter, by a different factor under each."""
    def __init__(self, c): self.c = c; super(Faint, self).__init__()
    n_modelparams = 1; modelparam_names = ['x']; expparams_dtype = [('t', float)]; is_n_outcomes_constant = True
    def n_outcomes(self, e): return 2
    def are_models_valid(self, m): return np.ones(len(m), bool)
    def f(self, x, t): return self.c * (.1 + np.cos(x * t) ** 2)
    def likelihood(self, outcomes, mps, eps):
        super(Faint, self).likelihood(outcomes, mps, eps)
        q = self.f(mps[:, 0, None], eps['t'][None, :]); return np.array([q if o == 1 else 1 - q for o in np.ravel(outcomes)])


def sec_faint(t):
    """A datum whose total likelihood is tiny, but above the threshold, is as good as any other."""
    rng = t.rng; thr = [None, None, 0, 1e-9][rng.randint(4)]
    lo = {None: 2.5e-15, 0: 2.6e-16, 1e-9: 2e-9}[thr]
    c = max(10. ** rng.uniform(-15.5, -8), lo) * 10          # every likelihood is at least c / 10
    m = Faint(c); n = int(rng.choice([2, 7, 100, 1000]))
    kw = {} if thr is None else dict(zero_weight_thresh=thr)
    u = qi.SMCUpdater(m, n, qi.UniformDistribution([[0, 1]]), resample_thresh=0, zero_weight_policy=['error', 'skip', 'reset', 'warn', 'ignore'][rng.randint(5)], **kw)
    t.describe(('faint', c, n, thr))
    for k in range(int(rng.randint(1, 4))):
        e = np.zeros(1, dtype=m.expparams_dtype); e['t'] = rng.uniform(0, 6); w, x = u.particle_weights.copy(), u.particle_locations.copy()
        want = w * m.f(x[:, 0], e['t'][0]); Z = want.sum(); want /= Z
        h, N = u.hypothetical_update(np.array([1]), e, return_normalization=True)
        t.close(h[0, 0], want, "faint-hypothetical", rtol=1e-9, atol=0); t.close(float(N.ravel()[0]), Z, "faint-normalization", rtol=1e-9, atol=0)
        u.update(1, e)
        t.close(u.particle_weights, want, "faint-weights", rtol=1e-9, atol=0); t.same(u.particle_locations, x, "faint-locations")
        t.check(len(u.normalization_record) == k + 1, "faint-record", ""); t.close(float(np.ravel(u.normalization_record[-1])[0]), Z, "faint-normalization", rtol=1e-9, atol=0)
    t.seen(('faint', thr, n, int(math.log10(c))))


SECTIONS = [Section("faint", sec_faint, 150), Section("disturbed", sec_disturbed, 300), Section("long", sec_long, 32), Section("lab-history", sec_lab, 160), Section("model-zoo", sec_zoo, 240), Section("batch", sec_batch, 90),
            Section("batch-mismatch", sec_batch_mismatch, 12), Section("order", sec_order, 90)]
