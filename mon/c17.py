"""C17: parallel evaluation is indistinguishable from serial evaluation.

Monitor: a stand-in direct view ships every task to an "engine" by pickling
(so engines own independent copies, as real ones do), runs the tasks in an
arbitrary completion order, hands results back in submission order with
read-only buffers, and logs them.  Results are compared with a serial model.
A section on a real ipyparallel cluster does the same over loopback.
"""
import copy, pickle, os, threading
import numpy as np
from scipy import stats
import qinfer as qi
from qinfer.abstract_model import FiniteOutcomeModel
from .core import Section, Skip, REPO
from .c15 import chisq
from . import gen

RULE = ("an observation is one call answered by both the parallel and the serial model; distinct means a different "
        "(model kind, engines, models per engine class, outcomes, experiments, completion order class, split axis)")
ASSUMPTIONS = ["a direct view evaluates map tasks on independent pickled copies and returns their results in submission order",
               "at exactly serial_threshold models either path may be taken"]


class EngineError(Exception):
    pass


class FakeAsync(object):
    def __init__(self, vals, order=None):
        self._v, self._order = vals, order

    def get(self, timeout=None): return list(self._v)
    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return True
    result = get

    def __iter__(self):
        return iter(self._v if self._order is None else [self._v[i] for i in self._order])
    def __len__(self): return len(self._v)
    def __getitem__(self, i): return self._v[i]


class LabView(object):
    """Stand-in for ipyparallel.DirectView."""
    def __init__(self, n, rng, fail_at=None):
        self.n, self.rng, self.fail_at = n, rng, fail_at
        self.maps, self.tasks, self.orders = 0, 0, []
        self.results = {}; self.purged = 0
        self.targets = list(range(n)); self.block = False

    def __len__(self): return self.n

    def _run(self, f, args):
        args = pickle.loads(pickle.dumps(args, protocol=2))      # engines own their copies
        r = f(*args)
        r = pickle.loads(pickle.dumps(r, protocol=2))
        if isinstance(r, np.ndarray):
            r.flags.writeable = False                            # zero-copy buffers are read-only
        return r

    def map(self, f, *seqs, **kw):
        seqs = [list(s) for s in seqs]
        n = len(seqs[0])
        if any(len(s) != n for s in seqs):
            raise ValueError("all sequences must have equal length")
        order = self.rng.permutation(n)
        self.maps += 1; self.tasks += n; self.orders.append(tuple(order[:4]))
        out = [None] * n
        for c, i in enumerate(order):
            if self.fail_at is not None and c == self.fail_at:
                raise EngineError("engine died")
            out[i] = self._run(f, tuple(s[i] for s in seqs))
        self.results[self.maps] = None
        if kw.get('block'):
            return out
        return FakeAsync(out, order if kw.get('ordered') is False else None)

    def map_sync(self, f, *seqs, **kw): return self.map(f, *seqs, block=True)
    def map_async(self, f, *seqs, **kw): return self.map(f, *seqs, **dict(kw, block=False))
    def purge_results(self, *a): self.results = {}; self.purged += 1

    def __getstate__(self):
        raise pickle.PicklingError("a direct view cannot be pickled")


class DetModel(FiniteOutcomeModel):
    """Outcome is a function of (model, experiment): any axis mix-up shows."""
    K = 97
    @property
    def n_modelparams(self): return 2
    @property
    def expparams_dtype(self): return [('b', 'int'), ('c', 'int')]
    @property
    def is_n_outcomes_constant(self): return True
    def n_outcomes(self, expparams): return self.K
    def are_models_valid(self, mps): return np.ones(len(mps), bool)
    def which(self, mps, eps):
        return (mps[:, 0].astype(int)[:, None] * 7 + eps['b'][None, :] * 13) % self.K
    def likelihood(self, outcomes, mps, eps):
        super(DetModel, self).likelihood(outcomes, mps, eps)
        if len(mps) == 0 or len(eps) == 0:
            raise ValueError("models need not support empty arrays")
        return (np.asarray(outcomes)[:, None, None] == self.which(mps, eps)[None]).astype(float)


def det_spec(rng):
    m = DetModel()
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['b'] = r.randint(0, 97, n); return e
    return gen.Spec("Det", m, lambda r, n: np.column_stack([r.permutation(n) + 3., r.rand(n)]), eps,
                    lambda e: list(range(97)), None)


KINDS = gen.BASE + gen.DERIVED + [gen.lab, det_spec, det_spec]


def kind(spec): return spec.name.split("(")[0]


def make(t, engines=None):
    rng = t.rng
    spec = KINDS[rng.randint(len(KINDS))](rng)
    while spec.name.startswith("GaussianRandomWalk"):      # holds closures: not picklable, which the class requires
        spec = KINDS[rng.randint(len(KINDS))](rng)
    n_eng = engines or int(rng.choice([1, 2, 3, 4, 5, 8, 13]))
    view = LabView(n_eng, rng)
    thr = [0, None, 1, 5][rng.randint(4)] if rng.rand() < .6 else 0
    serial = copy.deepcopy(spec.model)
    par = qi.DirectViewParallelizedModel(spec.model, view, **({} if thr is None else dict(serial_threshold=thr)))
    thr = 10 * n_eng if thr is None else thr
    return spec, serial, par, view, n_eng, thr


def outcomes_for(spec, rng, e):
    per = [spec.outs(x) for x in e]
    o = per[int(np.argmin([len(p) for p in per]))]          # admissible for every experiment
    if getattr(spec, 'sides', None):
        o = spec.outs(e[0])
    k = int(rng.randint(1, min(len(o), 6) + 1))
    return spec.arr([o[i] for i in rng.permutation(len(o))[:k]])


def eng_class(n, k): return "fewer" if n < k else "equal" if n == k else "multiple" if n % k == 0 else "uneven"


def sec_likelihood(t):
    rng = t.rng
    spec, serial, par, view, k, thr = make(t)
    t.describe((spec.name, k, thr))
    t.check(par.n_engines == k, "n_engines", lambda: "%r" % par.n_engines)
    t.check(par.underlying_model is spec.model and par.n_modelparams == serial.n_modelparams
            and par.expparams_dtype == serial.expparams_dtype, "parallel-properties", "")
    for _ in range(3):
        n = int(rng.choice([1, 2, max(1, k - 1), k, k + 1, 2 * k, rng.randint(1, 45), 10 * k + 1 if k < 6 else 7]))
        ne = int(rng.randint(1, 5))
        e = spec.eps(rng, ne)
        if getattr(spec, 'sides', None): e['n_meas'] = e['n_meas'][0]
        mp = spec.mps(rng, n); o = outcomes_for(spec, rng, e)
        keep = [pickle.dumps(x) for x in (o, mp, e)]
        c0, maps0 = par.call_count, view.maps
        want = serial.likelihood(o, mp.copy(), e.copy())
        got = par.likelihood(o, mp, e)
        t.close(got, want, "likelihood", rtol=1e-12, atol=1e-14, msg="%s over %d engines, %d models" % (spec.name, k, n))
        t.check([pickle.dumps(x) for x in (o, mp, e)] == keep, "arguments-modified", "")
        t.check(par.call_count - c0 == len(o) * n * ne, "call-count", lambda: "%d, expected %d" % (par.call_count - c0, len(o) * n * ne))
        if n > thr: t.check(view.maps > maps0, "not-distributed", "%d models above threshold %d stayed serial" % (n, thr))
        if n < thr: t.check(view.maps == maps0, "distributed-below-threshold", "%d models below threshold %d were sent to engines" % (n, thr))
        t.seen((kind(spec), k, eng_class(n, k), view.maps > maps0, len(o), ne))
        for q in view.orders: t.keys.add("o%d-%r" % (k, q))
        view.orders = []
    calls = []; spec.model.clear_cache = lambda: calls.append(1)     # stands for a model that keeps a cache
    try: par.clear_cache()
    finally: del spec.model.clear_cache
    t.check(len(calls) >= 1, "cache-not-cleared", lambda: "clearing the parallel model leaves the cache of %s as it was" % spec.name)
    t.close(par.likelihood(o, mp, e), want, "likelihood-after-clear-cache", rtol=1e-12, atol=1e-14)


def as_arr(x, shape):
    return np.asarray(x).reshape(shape)


def sec_simulate(t):
    rng = t.rng
    spec, serial, par, view, k, thr = make(t)
    t.describe((spec.name, k, thr))
    for _ in range(3):
        n = int(rng.choice([1, 2, max(1, k - 1), k, k + 1, rng.randint(1, 30)]))
        ne = int(rng.choice([1, 2, max(1, k - 1), k, k + 1, rng.randint(1, 20)])); rep = int(rng.choice([1, 1, 2, 5]))
        by = bool(rng.rand() < .5)
        e = spec.eps(rng, ne)
        if getattr(spec, 'sides', None): e['n_meas'] = e['n_meas'][0]
        mp = spec.mps(rng, n)
        keep = [pickle.dumps(x) for x in (mp, e)]
        s0, maps0 = par.sim_count, view.maps
        want = serial.simulate_experiment(mp.copy(), e.copy(), repeat=rep)
        kw = dict(split_by_modelparams=by) if not by or rng.rand() < .5 else {}
        got = par.simulate_experiment(mp, e, repeat=rep, **kw) if rep != 1 or rng.rand() < .5 else par.simulate_experiment(mp, e, **kw)
        t.check(np.shape(got) == np.shape(want), "simulation-shape", lambda: "%s, serial gives %s (%d models, %d experiments, %d repetitions, %d engines, by models %s)"
                % (np.shape(got), np.shape(want), n, ne, rep, k, by))
        t.check(np.asarray(got).dtype.kind == np.asarray(want).dtype.kind, "simulation-dtype", lambda: "%s vs %s" % (np.asarray(got).dtype, np.asarray(want).dtype))
        t.check(par.sim_count - s0 == rep * n * ne, "sim-count", lambda: "%d, expected %d" % (par.sim_count - s0, rep * n * ne))
        t.check([pickle.dumps(x) for x in (mp, e)] == keep, "arguments-modified", "")
        g = as_arr(got, (rep, n, ne))
        if isinstance(serial, DetModel):
            t.check(np.array_equal(g, np.broadcast_to(serial.which(mp, e), (rep, n, ne))), "simulation-axes",
                    "outcomes belong to other models or experiments (%d engines, by models %s)" % (k, by))
        elif not spec.continuous:
            for im in range(n):
                for ie in range(ne):
                    for r in range(rep):
                        p = spec.pr(g[r, im, ie], mp[im], e[ie])
                        t.check(p > 0, "impossible-outcome", lambda: "outcome %r has probability 0" % g[r, im, ie])
        split = n if by else ne
        if split > thr: t.check(view.maps > maps0, "not-distributed", "")
        if split < thr: t.check(view.maps == maps0, "distributed-below-threshold", "")
        t.seen((kind(spec), k, by, eng_class(split, k), view.maps > maps0, min(n, 3), min(ne, 3), rep))


def sec_law(t):
    """Simulated frequencies per (model, experiment) cell."""
    rng = t.rng
    spec = [gen.s_precession, gen.s_coin, gen.s_ndie, gen.s_rb, gen.s_binomial, gen.lab][rng.randint(6)](rng)
    k = int(rng.choice([2, 3, 5])); view = LabView(k, rng)
    par = qi.DirectViewParallelizedModel(spec.model, view, serial_threshold=0)
    n, ne = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    mp, e = spec.mps(rng, n), spec.eps(rng, ne); by = bool(rng.rand() < .5)
    t.describe((spec.name, k, n, ne, by))
    for im in range(n):
        for ie in range(ne):
            outs = spec.outs(e[ie]); pr = np.array([spec.pr(o, mp[im], e[ie]) for o in outs])
            pr = np.clip(pr, 0, 1); pr = pr / pr.sum()

            def law(N):
                g = as_arr(par.simulate_experiment(mp, e, repeat=N, split_by_modelparams=by), (N, n, ne))[:, im, ie]
                return chisq(np.array([(g == o).sum() for o in outs]), pr), "%s model %d experiment %d" % (spec.name, im, ie)
            t.stat("simulation-law", law, 300)
            t.seen((kind(spec), "law", k, by, im, ie))
    # equal models and experiments on different engines give independent data
    coin = qi.DirectViewParallelizedModel(qi.CoinModel(), LabView(3, rng), serial_threshold=0)
    e = np.zeros(1 if by else 3, dtype=coin.expparams_dtype); mp = np.full((3 if by else 1, 1), .5)

    def indep(N):
        g = as_arr(coin.simulate_experiment(mp, e, repeat=N, split_by_modelparams=by), (N, 3))
        return chisq(np.bincount(g[:, 0] + 2 * g[:, 1] + 4 * g[:, 2], minlength=8), np.ones(8) / 8), "joint law over engines"
    t.stat("engines-independent", indep, 400)


def sec_serialise(t):
    rng = t.rng
    spec, serial, par, view, k, thr = make(t)
    thr2 = int(rng.choice([0, 3, 50]))
    par = qi.DirectViewParallelizedModel(spec.model, view, serial_threshold=thr2, purge_client=bool(rng.randint(2)))
    flag = bool(rng.randint(2)); cut = float(rng.choice([.5, .9]))
    par.allow_identical_outcomes = flag; par.outcome_warning_threshold = cut
    e = spec.eps(rng, 2)
    if getattr(spec, 'sides', None): e['n_meas'] = e['n_meas'][0]
    mp = spec.mps(rng, int(rng.randint(1, 12))); o = outcomes_for(spec, rng, e)
    par.likelihood(o, mp, e); par.simulate_experiment(mp, e, repeat=2)
    how = rng.randint(3)
    cl = [lambda: pickle.loads(pickle.dumps(par)), lambda: pickle.loads(pickle.dumps(par, protocol=2)), lambda: copy.deepcopy(par)][how]()
    t.describe((spec.name, k, thr2, how))
    t.check(len(view) == k and par.n_engines == k, "pickling-damages-original", "original lost its view")
    for a in ("call_count", "sim_count", "n_modelparams", "expparams_dtype", "modelparam_names", "is_n_outcomes_constant",
              "allow_identical_outcomes", "outcome_warning_threshold"):
        t.check(getattr(cl, a) == getattr(par, a), "lost:" + a, lambda: "%r != %r" % (getattr(cl, a), getattr(par, a)))
    t.close(np.asarray(cl.Q), np.asarray(par.Q), "lost:Q")
    t.check(cl.n_engines == 0, "view-pickled", "the copy claims engines")
    cl.clear_cache()
    n = len(mp)
    want = serial.likelihood(o, mp, e)
    if n <= thr2:
        t.close(cl.likelihood(o, mp, e), want, "copy-likelihood", rtol=1e-12, atol=1e-14)
        t.seen((kind(spec), "copy-serial", how))
    else:
        for f in (lambda: cl.likelihood(o, mp, e), lambda: cl.simulate_experiment(mp, e)):
            try:
                f()
            except RuntimeError:
                t.seen((kind(spec), "copy-without-view", how))
            else:
                t.fail("copy-without-view", "a copy without engines answered a call it must distribute")
    # a new model around the copied underlying model behaves identically
    v2 = LabView(int(rng.randint(1, 6)), rng)
    again = qi.DirectViewParallelizedModel(cl.underlying_model, v2, serial_threshold=0)
    t.close(again.likelihood(o, mp, e), want, "recreated-likelihood", rtol=1e-12, atol=1e-14)
    t.seen((kind(spec), "recreated"))
    # a failing engine is an error, never a partial answer
    v3 = LabView(max(2, k), rng, fail_at=int(rng.randint(0, 2)))
    bad = qi.DirectViewParallelizedModel(spec.model, v3, serial_threshold=0)
    if n >= 2:
        for f in (lambda: bad.likelihood(o, mp, e), lambda: bad.simulate_experiment(mp, e)):
            try:
                f()
            except EngineError:
                t.seen((kind(spec), "engine-failure"))
            else:
                t.fail("engine-failure-hidden", "an engine died and the call returned")


def sec_inference(t):
    """A whole inference run: parallel and serial updaters stay bit-identical in law and value."""
    rng = t.rng
    spec = [gen.s_precession, gen.s_coin, gen.s_t2, gen.s_rb, gen.s_ndie, gen.s_binomial, gen.s_tomo, gen.lab][rng.randint(8)](rng)
    k = int(rng.choice([1, 2, 3, 7])); N = int(rng.choice([5, 20, 41])); view = LabView(k, rng)
    ser = copy.deepcopy(spec.model)
    par = qi.DirectViewParallelizedModel(spec.model, view, serial_threshold=0)
    seed = int(rng.randint(2 ** 31)); ups = []
    data = []
    for _ in range(6):
        e = spec.eps(rng, 1); m = spec.mps(rng, 1)
        os_ = spec.outs(e[0]); p = np.array([max(spec.pr(q, m[0], e[0]), 0) for q in os_]); p = p / p.sum()
        data.append((spec.arr([os_[rng.choice(len(os_), p=p)]])[0], e))
    t.describe((spec.name, k, N))
    for model in (ser, par):
        st = np.random.get_state(); np.random.seed(seed)
        try:
            up = qi.SMCUpdater(model, N, spec.prior(), resample_thresh=.6)
            hist = []
            for o, e in data:
                try:
                    up.update(o, e)
                except RuntimeError:
                    hist.append("zero"); break
                hist.append((up.particle_weights.copy(), up.particle_locations.copy(), up.resample_count, np.array(up.normalization_record, float).ravel().copy()))
        finally:
            np.random.set_state(st)
        ups.append(hist)
    a, b = ups
    t.check(len(a) == len(b), "inference-diverges", "histories of different length")
    for x, y in zip(a, b):
        if x == "zero" or y == "zero" or isinstance(x, str) or isinstance(y, str):
            t.check(isinstance(x, str) == isinstance(y, str), "inference-diverges", "only one updater met impossible data"); break
        for u, v in zip(x, y):
            t.close(u, v, "inference-diverges", rtol=1e-5, atol=1e-8)      # rounding differs with the batch size and grows over resamplings
        t.seen((kind(spec), "inference", k, N, x[2]))
    # decorators around a parallel model
    if not getattr(spec, 'varies', False) and len(spec.outs(data[0][1][0])) == 2 and k > 1:
        bin_s = qi.BinomialModel(copy.deepcopy(ser)); bin_p = qi.BinomialModel(qi.DirectViewParallelizedModel(ser, view, serial_threshold=0))
        b_ = gen.s_binomial(rng, base=spec)
        e = b_.eps(rng, 3); mp = spec.mps(rng, 11)
        t.close(bin_p.likelihood(np.array([0, 1]), mp, e), bin_s.likelihood(np.array([0, 1]), mp, e), "decorated-parallel", rtol=1e-12, atol=1e-14)
        t.seen((kind(spec), "binomial-over-parallel"))


def sec_real(t):
    """Real engines over loopback."""
    os.environ["PYTHONPATH"] = os.path.join(REPO, "src") + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    scratch = os.environ.get("QV_SCRATCH", "/tmp")
    rng = t.rng
    cl = None
    try:
        import logging, ipyparallel as ipp
        n_eng = 3
        cl = ipp.Cluster(n=n_eng, ipython_dir=scratch, log_level=logging.CRITICAL)
        rc = cl.start_and_connect_sync(activate=False)
        rc.wait_for_engines(n_eng, timeout=60)
        view = rc[:]
        view.map_sync(abs, range(n_eng))
    except Exception as ex:           # the sandbox cannot run a cluster: nothing to observe
        if cl is not None:
            try: cl.stop_cluster_sync()
            except Exception: pass
        raise Skip
    try:
        t.describe("ipyparallel cluster of %d engines" % n_eng)
        for maker in (gen.s_precession, gen.s_rb, gen.s_tomo, gen.s_binomial, gen.lab, det_spec):
            spec = maker(rng)
            serial = copy.deepcopy(spec.model)
            par = qi.DirectViewParallelizedModel(spec.model, view, serial_threshold=0)
            for n in (1, 2, 3, 8):
                e = spec.eps(rng, 3); mp = spec.mps(rng, n); o = outcomes_for(spec, rng, e)
                t.close(par.likelihood(o, mp, e), serial.likelihood(o, mp, e), "real-likelihood", rtol=1e-12, atol=1e-14)
                for by in (True, False):
                    got = par.simulate_experiment(mp, e, repeat=2, split_by_modelparams=by)
                    t.check(np.shape(got) == (2, n, 3), "real-simulation-shape", lambda: str(np.shape(got)))
                    if maker is det_spec:
                        t.check(np.array_equal(got, np.broadcast_to(serial.which(mp, e), (2, n, 3))), "real-simulation-axes", "")
                par.clear_cache()
                t.seen((kind(spec), "real", n))
    finally:
        try:
            rc.close(); cl.stop_cluster_sync()
        except Exception:
            pass


SECTIONS = [
    Section("real", sec_real, 1, 4, optional=True),
    Section("likelihood", sec_likelihood, 150),
    Section("simulate", sec_simulate, 150),
    Section("law", sec_law, 20),
    Section("serialise", sec_serialise, 60),
    Section("inference", sec_inference, 40),
]
