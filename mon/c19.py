"""C19: simple estimation does not depend on how the data are supplied.

Monitor: each data set goes through the one-call estimator in every supply
format under one seed (results must be bit-identical), and the returned mean,
covariance and evidence are compared with a quadrature posterior computed in
plain numpy from the documented likelihood and prior.
"""
import io, os, sys, math, tempfile, importlib, types, contextlib
import numpy as np
from scipy.special import gammaln
import qinfer as qi
from .core import Section, Skip

RULE = ("an observation is one estimator call compared with another format or with the exact posterior; distinct means a "
        "different (estimator, format, option set, data-set shape)")
ASSUMPTIONS = ["Monte Carlo agreement is judged with wide deterministic bounds, an alarm needing three independent failures in a row",
               "CSV text carries enough digits to represent the numbers exactly",
               "pandas is not installed here; data frames are stood in for by an object with the same to_records method"]


def logbin(k, n, p):
    p = np.clip(p, 1e-300, 1); q = np.clip(1 - p, 1e-300, 1)
    return gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + k * np.log(p) + (n - k) * np.log(q)


def prec_data(rng, rows=None):
    fmax = float(rng.choice([1., 1., 100., .01])); fmin = float(rng.choice([0., 0., .3])) * fmax
    rows = rows or int(rng.choice([1, 2, 5, 12, 20]))
    ts = np.arange(1, rows + 1) / (2. * fmax) * float(rng.choice([1., 2.]))
    if rng.rand() < .3: ts = rng.permutation(ts)
    if rng.rand() < .5: ts = ts * rng.uniform(.95, 1.05, rows)
    ns = rng.randint(1, 41, size=rows) if rng.rand() < .5 else np.full(rows, int(rng.choice([40, 40, 1000, 100000])))
    w = rng.uniform(fmin, fmax)
    cs = rng.binomial(ns, np.sin(w * ts / 2) ** 2)
    return dict(kind="prec", counts=cs, t=ts, n_shots=ns, fmin=fmin, fmax=fmax)


def rb_data(rng, il, rows=None):
    rows = rows or int(rng.choice([1, 3, 8, 12]))
    pmin = float(rng.choice([0., .5, .8])); pmax = float(rng.choice([1., 1., .98]))
    ms = rng.randint(0, int(rng.choice([40, 40, 700])), size=rows); ns = rng.randint(1, int(rng.choice([12, 700, 700, 200000])), size=rows)
    A, B = rng.uniform(.2, .5), rng.uniform(.2, .5); p, pt = rng.uniform(pmin, pmax, size=2)
    ref = rng.rand(rows) < .5
    pe = np.where(ref, p, p * pt) if il else p
    d = dict(kind="rbi" if il else "rb", counts=rng.binomial(ns, A * pe ** ms + B), m=ms, n_shots=ns, pmin=pmin, pmax=pmax)
    if il: d['reference'] = ref
    return d


ORDER = dict(prec=["counts", "t", "n_shots"], rb=["counts", "m", "n_shots"], rbi=["counts", "m", "n_shots", "reference"])


def call(d, data, n, **kw):
    if d["kind"] == "prec":
        opts = dict(freq_min=d["fmin"], freq_max=d["fmax"])
        if opts["freq_min"] == 0: opts.pop("freq_min")
        if opts.get("freq_max") == 1: opts.pop("freq_max")
        return qi.simple_est_prec(data, n_particles=n, **dict(opts, **kw))
    opts = dict(p_min=d["pmin"], p_max=d["pmax"])
    if opts["p_min"] == 0: opts.pop("p_min")
    if opts.get("p_max") == 1: opts.pop("p_max")
    if d["kind"] == "rbi": opts["interleaved"] = True
    return qi.simple_est_rb(data, n_particles=n, **dict(opts, **kw))


def formats(d, rng, tmp):
    cols = ORDER[d["kind"]]; rows = len(d["counts"])
    out = []
    plain = np.column_stack([np.asarray(d[c], float) for c in cols])
    out.append(("plain", lambda: plain.copy()))
    out.append(("plain-fortran", lambda: np.asfortranarray(plain)))
    out.append(("plain-strided", lambda: np.repeat(plain, 2, axis=0)[::2]))
    if d["kind"] != "prec": out.append(("plain-int", lambda: plain.astype(int)))

    def rec(order, extra, view, wide):
        ty = dict(counts='i8' if wide else 'u4', t='f8', m='i8' if wide else 'u4', n_shots='i4', reference='?' if wide else 'u1')
        a = np.zeros(rows, dtype=[(c, ty.get(c, 'f8')) for c in order] + ([("note", 'S3')] if extra else []))
        for c in order: a[c] = d[c]
        return a.view(np.recarray) if view else a
    perm = [cols[i] for i in rng.permutation(len(cols))]
    out.append(("record", lambda: rec(cols, False, False, True)))
    out.append(("record-permuted", lambda: rec(perm, True, False, False)))
    out.append(("recarray", lambda: rec(perm, False, True, True)))
    text = "\n".join(",".join(("%d" % int(d[c][i])) if c != 't' else repr(float(d[c][i])) for c in cols) for i in range(rows))
    sp = rng.rand() < .5
    if sp: text = text.replace(",", ", ") + "\n"
    out.append(("file-like", lambda: io.StringIO(text)))

    def name():
        fd, path = tempfile.mkstemp(suffix=".csv", dir=tmp); os.write(fd, text.encode()); os.close(fd); return path
    out.append(("file-name", name))
    out.append(("open-file", lambda: open(name())))

    class Frame(object):                     # what the estimators need of a data frame
        def to_records(self, index=True):
            a = rec(perm, False, True, True)
            if index:
                from numpy.lib import recfunctions
                a = recfunctions.append_fields(a, "index", np.arange(rows), usemask=False)
            return a
    return out, Frame


@contextlib.contextmanager
def watch_updates():
    """Records every datum the inference is given, one (outcome, experiment) at a time."""
    fed = []; real = qi.SMCUpdater.update

    def update(self, outcome, expparams, *a, **k):
        fed.append((np.ravel(outcome)[0], np.ravel(expparams)[0] if np.size(expparams) == 1 else None))
        return real(self, outcome, expparams, *a, **k)
    qi.SMCUpdater.update = update
    try: yield fed
    finally: qi.SMCUpdater.update = real


def same_rows(t, d, fed, name):
    """The data handed to the inference are the rows supplied, at full precision."""
    for i, (o, e) in enumerate(fed):
        if e is None or i >= len(d["counts"]): continue
        t.check(o == d["counts"][i], "row-outcome", lambda: "%s: row %d has %r counts, %r used" % (name, i, d["counts"][i], o))
        t.check(e['n_meas'] == d["n_shots"][i], "row-experiment", lambda: "%s: row %d: %s" % (name, i, e))
        t.check(e['x'] == d["t"][i] if d["kind"] == "prec" else e['m'] == d["m"][i], "row-experiment", lambda: "%s: row %d: %s" % (name, i, e))
        if d["kind"] == "rbi": t.check(bool(e['reference']) == bool(d["reference"][i]), "row-experiment", lambda: "%s: row %d: %s" % (name, i, e))
    t.count("rows observed", len(fed))


def sec_formats(t):
    rng = t.rng
    d = [prec_data, prec_data, lambda r: rb_data(r, False), lambda r: rb_data(r, True)][rng.randint(4)](rng)
    n = int(rng.choice([20, 100, 1000])); seed = int(rng.randint(2 ** 31))
    t.describe({k: (v if np.isscalar(v) else list(np.asarray(v).tolist())) for k, v in d.items()})
    tmp = tempfile.mkdtemp(dir=os.environ.get("QV_SCRATCH"))
    ref = None
    try:
        fm, Frame = formats(d, rng, tmp)
        for name, make in fm:
            data = make(); keep = data.tobytes() if isinstance(data, np.ndarray) else None
            np.random.seed(seed)
            all_ = rng.rand() < .5
            try:
                with watch_updates() as fed:
                    r = call(d, data, n, **(dict(return_all=True) if all_ else {}))
            except RuntimeError as e:
                same_rows(t, d, fed, name)
                if "weights" not in str(e).lower(): raise
                # the data contradict every particle: then they do so in every format
                if ref is None: ref = (name, None, None)
                t.check(ref[1] is None, "format-changes-result", lambda: "%s: %s; %s gives %s" % (name, e, ref[0], ref[1]))
                t.seen((d["kind"], name, "contradicted")); continue
            same_rows(t, d, fed, name)
            t.check(len(r) == (3 if all_ else 2), "return-length", lambda: "%d values, return_all=%s" % (len(r), all_))
            if keep is not None: t.check(data.tobytes() == keep, "data-modified", name)
            if hasattr(data, "close"): data.close()
            mean, cov = np.asarray(r[0]), np.asarray(r[1])
            dim = dict(prec=0, rb=3, rbi=4)[d["kind"]]
            t.check(mean.shape == ((dim,) if dim else ()) and cov.shape == ((dim, dim) if dim else ()), "result-shape", lambda: "%s %s" % (mean.shape, cov.shape))
            if all_:
                up = r[2]['updater']
                t.check(up.n_particles == n, "n_particles-ignored", lambda: str(up.n_particles))
                t.close(np.ravel(up.est_mean()), np.ravel(mean), "mean-not-posterior", rtol=1e-12)
                t.close(np.ravel(up.est_covariance_mtx()), np.ravel(cov), "cov-not-posterior", rtol=1e-12, atol=0)
                t.check(len(up.data_record) == len(d["counts"]), "data-record", lambda: "%d data, %d rows" % (len(up.data_record), len(d["counts"])))
                t.check([int(np.ravel(o)[0]) for o in up.data_record] == [int(c) for c in d["counts"]], "data-record", "outcomes")
            if ref is None: ref = (name, mean, cov)
            else:
                t.check(ref[1] is not None, "format-changes-result", lambda: "%s gives %s, %s fails" % (name, mean, ref[0]))
                t.check(np.array_equal(mean, ref[1]) and np.array_equal(cov, ref[2]), "format-changes-result",
                        lambda: "%s gives %s, %s gives %s" % (name, mean, ref[0], ref[1]))
            t.seen((d["kind"], name, min(len(d["counts"]), 2), bool(all_)))
        if ref[1] is None: return
        # data frames
        fake = types.ModuleType("pandas"); fake.DataFrame = Frame; fake.__version__ = "0"
        saved = {k: sys.modules.get(k) for k in ("pandas", "qinfer.simple_est")}
        pkg_attr = getattr(qi, "simple_est", None)
        sys.modules["pandas"] = fake; sys.modules.pop("qinfer.simple_est", None)
        try:
            mod = importlib.import_module("qinfer.simple_est")
            np.random.seed(seed)
            old = qi.simple_est_prec, qi.simple_est_rb
            qi.simple_est_prec, qi.simple_est_rb = mod.simple_est_prec, mod.simple_est_rb
            try:
                r = call(d, Frame(), n)
            finally:
                qi.simple_est_prec, qi.simple_est_rb = old
        finally:
            for k, v in saved.items():
                if v is None: sys.modules.pop(k, None)
                else: sys.modules[k] = v
            if pkg_attr is not None: qi.simple_est = pkg_attr
        t.check(np.array_equal(r[0], ref[1]) and np.array_equal(r[1], ref[2]), "format-changes-result", "data frame gives %s, %s gives %s" % (r[0], ref[0], ref[1]))
        t.seen((d["kind"], "dataframe"))
        for bad in (None, 3, [1, 2, 3], dict(counts=1)):
            try: call(d, bad, n)
            except TypeError: t.seen((d["kind"], "TypeError", type(bad).__name__))
            else: t.fail("bad-data-accepted", "%r accepted as data" % (bad,))
    finally:
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def exact(d, rng):
    """mean, cov, log evidence, and the posterior's smallest effective share of the prior along the history."""
    if d["kind"] == "prec":
        x = np.linspace(d["fmin"], d["fmax"], 60001); x = (x[:-1] + x[1:]) / 2
        terms = (logbin(c, n, np.sin(x * tt / 2) ** 2) for c, tt, n in zip(d["counts"], d["t"], d["n_shots"]))
        X = x[:, None]
    else:
        N = 200000
        il = d["kind"] == "rbi"
        acc = []
        have = 0
        while have < N:
            A = rng.rand(N); B = rng.rand(N); p = rng.uniform(d["pmin"], d["pmax"], N)
            ok = A + B <= 1
            cols = [p, A, B]
            if il: cols = [rng.uniform(d["pmin"], d["pmax"], N)] + cols
            acc.append(np.column_stack(cols)[ok]); have += int(ok.sum())
        X = np.concatenate(acc)[:N]
        if il:
            # the model's validity also bounds A p + B and A p_C + B, implied by A + B <= 1
            pe = lambda i: X[:, 1] if d["reference"][i] else X[:, 0] * X[:, 1]
        else:
            pe = lambda i: X[:, 0]
        A, B = X[:, -2], X[:, -1]
        terms = (logbin(d["counts"][i], d["n_shots"][i], A * pe(i) ** int(d["m"][i]) + B) for i in range(len(d["counts"])))
    ll = np.zeros(len(X)); ess = 1.
    for term in terms:
        ll += term
        M = ll.max(); w = np.exp(ll - M); Z = w.mean(); w /= w.sum()
        ess = min(ess, 1 / np.sum(w ** 2) / len(w))
        if ess < .58: return None, None, None, 0
    mu = w @ X; C = (w[:, None] * (X - mu)).T @ (X - mu)
    return mu, C, M + math.log(Z), ess


def mild(rng, d):
    """Few shots, so that no resampling happens and the estimate is plain importance sampling from the prior."""
    d["n_shots"] = rng.randint(0, 5, size=len(d["counts"])) if d["kind"] == "prec" else rng.randint(0, 4, size=len(d["counts"]))
    d["counts"] = rng.binomial(d["n_shots"], rng.uniform(.1, .9, size=len(d["counts"])))
    return d


def sec_posterior(t):
    rng = t.rng
    for _ in range(60):
        d = mild(rng, [prec_data, prec_data, lambda r: rb_data(r, False), lambda r: rb_data(r, True)][rng.randint(4)](rng))
        mu, C, lz, ess = exact(d, rng)
        if ess > .58: break
    else:
        raise Skip
    t.describe({k: (v if np.isscalar(v) else list(np.asarray(v).tolist())) for k, v in d.items()})
    sd = np.sqrt(np.diag(C))
    plain = np.column_stack([np.asarray(d[c], float) for c in ORDER[d["kind"]]])
    n = 6000
    dev = None
    for attempt in range(3):
        mean, cov, extra = call(d, plain, n, return_all=True)
        m = np.ravel(mean); V = np.atleast_2d(cov)
        ev = float(extra['updater'].log_total_likelihood)
        dev = (np.max(np.abs(m - mu) / sd), np.max(np.abs(np.sqrt(np.diag(V)) / sd - 1)),
               np.max(np.abs(V - C) / np.outer(sd, sd)), abs(ev - lz))
        t.count("estimates compared with exact posteriors")
        t.count("deviation over 60% of the tolerance", dev[0] > .06 or dev[1] > .06 or dev[2] > .1 or dev[3] > .06)
        if dev[0] < .1 and dev[1] < .1 and dev[2] < .15 and dev[3] < .1: break
    else:
        t.fail("posterior", "mean %s, exact %s (off by %.2f sd); sd %s, exact %s; covariance off by %.2f; log evidence %.3f, exact %.3f"
               % (m, mu, dev[0], np.sqrt(np.diag(V)), sd, dev[2], ev, lz))
    t.seen((d["kind"], "posterior", min(len(d["counts"]), 3), d.get("fmin", 0) > 0, d.get("pmin", 0) > 0, d.get("pmax", 1) < 1, int(d["n_shots"].sum()) == 0))


def sec_prior(t):
    """With no shots the estimate is the documented uniform prior over the requested range."""
    rng = t.rng
    il = bool(rng.randint(2))
    if rng.rand() < .5:
        lo = float(rng.choice([0., .2, 5.])); hi = lo + float(rng.choice([.1, 1., 50.]))
        d = dict(kind="prec", counts=np.array([0]), t=np.array([1.]), n_shots=np.array([0]), fmin=lo, fmax=hi)
        r = call(d, np.array([[0., 1., 0.]]), 4000, return_all=True)
        x = r[2]['updater'].particle_locations
        t.check(x.shape == (4000, 1), "n_particles-ignored", "")
        t.check(x.min() >= lo and x.max() <= hi and x.min() < lo + .02 * (hi - lo) and x.max() > hi - .02 * (hi - lo), "prior-range",
                lambda: "particles in [%r, %r], requested [%r, %r]" % (x.min(), x.max(), lo, hi))
        t.seen(("prec", lo > 0, hi))
    else:
        lo = float(rng.choice([0., .5, .9])); hi = float(rng.choice([1., .95]))
        d = dict(kind="rbi" if il else "rb", counts=np.array([0]), m=np.array([2]), n_shots=np.array([0]), pmin=lo, pmax=hi)
        row = [0., 2., 0.] + ([1.] if il else [])
        x = call(d, np.array([row]), 4000, return_all=True)[2]['updater'].particle_locations
        t.check(x.shape == (4000, 4 if il else 3), "n_particles-ignored", "")
        P = x[:, :-2]
        t.check(P.min() >= lo and P.max() <= hi and np.all(P.min(axis=0) < lo + .03 * (hi - lo)) and np.all(P.max(axis=0) > hi - .03 * (hi - lo)), "prior-range",
                lambda: "p in [%s, %s], requested [%r, %r]" % (P.min(axis=0), P.max(axis=0), lo, hi))
        AB = x[:, -2:]
        t.check(AB.min() >= 0 and np.all(AB.sum(axis=1) <= 1) and np.all(AB.max(axis=0) > .9) and np.all(AB.min(axis=0) < .05), "prior-AB", "A, B not over their feasible triangle")
        t.seen((d["kind"], lo, hi))


def sec_range(t):
    """Resampling keeps to the requested range, wherever that range lies, and can reach all of it."""
    rng = t.rng
    if rng.rand() < .7:
        lo = float(rng.choice([-3., -1., -.2, 0., .3, 2.])); hi = lo + float(rng.choice([.4, 1., 3.]))
        if hi <= 0: hi = 1.
        rows = int(rng.randint(6, 16)); ts = np.arange(1, rows + 1) * .5 / max(abs(lo), hi)
        w = lo if rng.rand() < .4 else rng.uniform(lo, hi)
        if rng.rand() < .2: w = hi
        ns = np.full(rows, int(rng.choice([5, 40])))
        data = np.column_stack([rng.binomial(ns, np.sin(w * ts / 2) ** 2), ts, ns])
        f = lambda: qi.simple_est_prec(data, freq_min=lo, freq_max=hi, n_particles=600, return_all=True)
        kind = "prec"; dim = 0
    else:
        il = bool(rng.randint(2)); kind = "rbi" if il else "rb"; dim = 4 if il else 3
        lo = float(rng.choice([0., .5, .9])); hi = float(rng.choice([1., .97]))
        rows = int(rng.randint(6, 16)); ms = rng.randint(0, 60, size=rows); ns = np.full(rows, int(rng.choice([5, 60])))
        p = rng.choice([lo, hi, rng.uniform(lo, hi)])
        data = np.column_stack([rng.binomial(ns, .5 * p ** ms + .5), ms, ns] + ([rng.randint(0, 2, size=rows)] if il else []))
        f = lambda: qi.simple_est_rb(data, interleaved=il, p_min=lo, p_max=hi, n_particles=600, return_all=True)
    t.describe(dict(kind=kind, lo=lo, hi=hi, data=data.tolist()))
    import warnings
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try: mean, cov, extra = f()
        except RuntimeError as e:
            if "weights" in str(e).lower(): raise Skip
            raise
    up = extra['updater']; x = up.particle_locations
    failed = [str(m.message) for m in log if "valid models" in str(m.message)]
    t.check(not failed, "range-unreachable", lambda: "resampling cannot find valid models in [%r, %r]: %s" % (lo, hi, failed[0]))
    if kind == "prec":
        t.check(x.min() >= lo, "particles-below-range", lambda: "a frequency of %r, freq_min=%r" % (x.min(), lo))
    else:
        # the randomised benchmarking models accept all p in [0, 1]
        t.check(x[:, :-2].min() >= 0 and x[:, :-2].max() <= 1, "particles-outside", "")
    t.seen((kind, lo, hi, up.resample_count > 0))
    t.count("estimates that resampled", up.resample_count > 0)


def sec_long(t):
    """Long informative histories: the posterior narrows by orders of magnitude, and the estimate has to follow it."""
    rng = t.rng
    rows = int(rng.choice([100, 200, 400, 400])); shots = int(rng.choice([5, 50, 50]))
    fmax = float(rng.choice([1., 1., 30.])); w = rng.uniform(.15, .85) * fmax; step = float(rng.choice([.2, 1., 1.]))
    ts = np.arange(1, rows + 1) * step / fmax; ns = np.full(rows, shots)
    if rng.rand() < .5: ns = rng.randint(1, shots + 1, size=rows)
    cs = rng.binomial(ns, np.sin(w * ts / 2) ** 2)
    t.describe(dict(rows=rows, shots=shots, fmax=fmax, w=w, step=step))
    x = np.linspace(0, fmax, 40001); x = (x[1:] + x[:-1]) / 2
    for zoom in (1, 1000.):            # coarse, then around the posterior's bulk
        ll = np.zeros(len(x))
        for a, n, b in zip(cs, ns, ts): ll += logbin(a, n, np.sin(x * b / 2) ** 2)
        M = ll.max(); W = np.exp(ll - M); Z = W.sum() * (x[1] - x[0]) / fmax; W /= W.sum()
        if zoom == 1:
            bulk = x[ll > M - 60]
            lo, hi = max(0, bulk.min() - (x[1] - x[0])), min(fmax, bulk.max() + (x[1] - x[0]))
            x = np.linspace(lo, hi, 40001); x = (x[1:] + x[:-1]) / 2
    mu = W @ x; sd = math.sqrt(W @ (x - mu) ** 2); lz = M + math.log(Z)
    if sd < 20 * (x[1] - x[0]): raise Skip
    data = np.column_stack([cs, ts, ns])
    def compare(run):
        try: m, V, up = run()
        except RuntimeError as e:
            if "weights" in str(e).lower(): return (np.inf,) * 3
            raise
        return (abs(m - mu) / sd, abs(math.log(V) / 2 - math.log(sd)), abs(float(up.log_total_likelihood) - lz))
    def one_call():
        m, V, extra = qi.simple_est_prec(data, freq_max=fmax, n_particles=1000, return_all=True); return m, V, extra['updater']
    def by_hand():
        model = qi.BinomialModel(qi.SimplePrecessionModel()); up = qi.SMCUpdater(model, 1000, qi.UniformDistribution([0, fmax]))
        for a, b, n in zip(cs, ts, ns):
            e = np.zeros(1, dtype=model.expparams_dtype); e['x'] = b; e['n_meas'] = n; up.update(int(a), e)
        return up.est_mean()[0], up.est_covariance_mtx()[0, 0], up
    good = lambda v: v[0] < 1 and v[1] < .5 and v[2] < 2.2
    dev = []
    for attempt in range(6):
        dev += [compare(one_call) for _ in range(5)]
        # a run may settle on a neighbouring fringe, sometimes many of them do; a wrong inference puts all of them off
        q = np.percentile(dev, 25, axis=0, interpolation='lower')
        t.count("long histories compared with exact posteriors")
        t.count("long histories over half the tolerance", q[0] > .3 or q[1] > .2 or q[2] > .8)
        bad = np.mean([not good(v) for v in dev])
        if q[0] < .6 and q[1] < .35 and q[2] < 1.6 and bad <= .4: break
    else:
        if np.isinf(q).any() and bad > .9: raise Skip           # no run gets through: judged by the other sections
        if not (q[0] < .6 and q[1] < .35 and q[2] < 1.6):
            t.fail("long-history", "best quarter of %d estimates: mean off by %.2f sd, log sd by %.2f, log evidence by %.2f" % (len(dev), q[0], q[1], q[2]))
        # often off: is that the problem's nature?  The same inference by hand, datum by datum, tells
        own = np.mean([not good(compare(by_hand)) for _ in range(30)])
        t.check(bad < .5 or own > .1, "worse-than-by-hand", lambda: "%.0f%% of %d estimates are off, %.0f%% of those made datum by datum" % (100 * bad, len(dev), 100 * own))
    t.seen(("long", rows, shots, fmax, step))


SECTIONS = [
    Section("long", sec_long, 14),
    Section("range", sec_range, 60),
    Section("formats", sec_formats, 120),
    Section("posterior", sec_posterior, 40),
    Section("prior", sec_prior, 16),
]
