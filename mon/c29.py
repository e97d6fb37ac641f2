"""C29: results depend only on inputs and seed; inputs are never modified.

Monitor: every public callable of the library is wrapped.  The workloads of all
other checks run as transcripts of (call, digest of inputs and random state,
digest of outputs, object state and random state afterwards).  The same
transcript must result whatever uninitialised memory contains (every np.empty
filled with different bytes; glibc malloc perturbation), whatever the hash
seed, and whatever ran before in the process; and no call may change an array
it was given or one that an earlier call returned.
"""
import os, sys, json, subprocess, importlib, time, warnings, random
import numpy as np
from .core import Section, Skip, Case, Violation, CaseTimeout, h32, VERIF, REPO
from . import rec

RULE = ("an observation is one library call of a transcript, compared between two runs that differ in memory contents, hash seed or process history, "
        "and with its arguments compared bytewise before and after; distinct means a different (callable, check workload) combination")
ASSUMPTIONS = ["wall-clock times (the elapsed_time field) are not results", "arrays that are views of an object's live state are not previously returned results",
               "workloads driving a real cluster are left out, since its scheduling is not part of the library"]

# module -> sections whose workload is fast and uses only seeded randomness
PLAN = {
    'c01': None, 'c02': None, 'c03': None, 'c04': ['history', 'arguments', 'default'], 'c05': ['moments', 'postselection', 'contract', 'degenerate', 'updater'],
    'c06': None, 'c07': ['set', 'regions'], 'c08': None, 'c09': ['table', 'validity', 'helpers', 'domains'], 'c10': ['shape', 'gaussian'], 'c11': ['transform', 'passthrough', 'hyper', 'learned'],
    'c12': ['identity', 'random-walk', 'gaussian-walk', 'update-covariance', 'loop'], 'c13': ['analytic', 'fisher', 'numeric', 'finite-difference'], 'c14': None,
    'c15': ['univariate', 'discrete', 'multivariate', 'quantum', 'constant', 'gradient'], 'c16': None, 'c17': ['likelihood', 'simulate', 'serialise', 'inference'], 'c18': ['single', 'multiple'],
    'c19': ['formats', 'prior'], 'c20': ['sparse', 'pgh', 'ensemble', 'design', 'store'], 'c21': ['basis', 'convert', 'superop'], 'c22': ['canon', 'born', 'inference'],
    'c23': ['states', 'gadfli', 'tensor', 'pauli', 'stabilizer', 'product', 'bestofk'], 'c24': None, 'c25': None, 'c26': None, 'c27': None, 'c28': ['logged', 'copies', 'cost']}
ALL = None


def workloads():
    """Deterministic list of (module, Section)."""
    global ALL
    if ALL is None:
        ALL = []
        for m in sorted(PLAN):
            mod = importlib.import_module('mon.' + m)
            for s in mod.SECTIONS:
                if s.optional or (PLAN[m] is not None and s.name not in PLAN[m]): continue
                ALL.append((m, s))
    return ALL


def transcript(m, sec, idx, seed, byte=None):
    """Run one case of another check under the recorder; its own verdict is not judged here."""
    rec.install()
    R = rec.REC; R.reset()
    t = Case(m.upper(), sec.name, idx, seed, 'quick')
    np.random.seed(h32('c29', m, sec.name, idx, seed)); random.seed(h32('c29py', m, sec.name, idx, seed))
    err = np.geterr()
    end = 'ok'
    try:
        with warnings.catch_warnings(), rec.poisoned(byte):
            warnings.simplefilter('ignore')
            R.on = True
            sec.fn(t)
    except CaseTimeout: raise
    except Violation as e: end = 'violation ' + e.mech
    except Skip: end = 'skip'
    except Exception as e: end = 'exception ' + type(e).__name__
    finally:
        R.on = False; np.seterr(**err)
    return dict(entries=list(R.entries), mutations=list(R.mutations), end=end, arrays=R.arrays, names=set(R.names), poisons=rec.POISON['n'])


def diverge(a, b):
    """(kind, position, name) of the first difference between two transcripts."""
    for i, (x, y) in enumerate(zip(a, b)):
        if tuple(x) == tuple(y): continue
        if x[0] != y[0]: return 'call', i, '%s / %s' % (x[0], y[0])
        if x[1] != y[1]: return 'input', i, x[0]
        return 'output', i, x[0]
    if len(a) != len(b): return 'length', min(len(a), len(b)), ''
    return None


def pick(t):
    w = workloads(); m, s = w[(t.idx * 7 + t.seed) % len(w)] if t.idx < len(w) else w[t.rng.randint(len(w))]
    return m, s, int(t.rng.randint(10 ** 6))


def judge(t, a, b, mech, what):
    d = diverge(a['entries'], b['entries'])
    t.check(d is None, mech, lambda: "%s: call %d (%s) differs first, in its %s" % (what, d[1], d[2], d[0]))
    t.check(a['end'] == b['end'], mech, lambda: "%s: workload ended with %s / %s" % (what, a['end'], b['end']))


def sec_memory(t):
    """Uninitialised memory filled with zeros, ones bits or an arbitrary byte; and argument snapshots."""
    m, s, idx = pick(t)
    what = "%s/%s case %d" % (m, s.name, idx); t.describe(what)
    a = transcript(m, s, idx, t.seed, 0x00)
    for n, msg in a['mutations'][:1]: t.fail("modified:" + n, "%s: %s: %s" % (what, n, msg))
    b = transcript(m, s, idx, t.seed, 0xff); judge(t, a, b, "memory-dependent", what + ", buffers of zeros or NaNs")
    c = transcript(m, s, idx, t.seed, 0x41); judge(t, a, c, "memory-dependent", what + ", buffers of zeros or 0x41")
    if not a['entries']: raise Skip
    for n in a['names']: t.seen((n, m, s.name), 0)
    t.evaluations += 3 * len(a['entries']); t.count("library calls", 3 * len(a['entries'])); t.count("argument arrays compared", a['arrays'] * 3)
    t.count("buffers poisoned", max(0, c['poisons'] - a['poisons'])); t.count("workloads ending early", a['end'] != 'ok')


def child(spec):
    """Entry point of child processes: run the cases listed, print their transcripts' digests."""
    out = []
    for k, (m, sn, idx, seed) in enumerate(spec['cases']):
        sec = [s for mm, s in workloads() if mm == m and s.name == sn][0]
        r = transcript(m, sec, idx, seed)
        out.append((m, sn, idx, [(n, i.hex(), o.hex()) for n, i, o in r['entries']], r['end']))
    sys.stdout.write("\n@@" + json.dumps(out) + "\n")


def spawn(cases, hashseed, perturb):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), MALLOC_PERTURB_=str(perturb), QV_REPO=REPO)
    if not perturb: env.pop('MALLOC_PERTURB_')
    code = ("import sys, warnings; warnings.simplefilter('ignore'); sys.path.insert(0, %r); sys.path.insert(0, %r); sys.dont_write_bytecode = True; import json; from mon import c29; c29.child(json.loads(sys.stdin.read()))"
            % (os.path.join(REPO, 'src'), VERIF))
    # the library must come from REPO, also before VERIF on the path
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(dict(cases=cases)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env, timeout=600)
    i = p.stdout.rfind('@@')
    if p.returncode or i < 0: raise RuntimeError("child failed (%s): %s" % (p.returncode, p.stderr[-500:]))
    return {(m, s, k): (e, end) for m, s, k, e, end in json.loads(p.stdout[i + 2:])}


def sec_process(t):
    """Other processes: another hash seed, perturbed allocator, other work before."""
    rng = t.rng; w = workloads(); n = 14
    # every workload appears in some process pair
    base = (t.idx * n) % len(w)
    cases = [(w[(base + k) % len(w)][0], w[(base + k) % len(w)][1].name, int(rng.randint(10 ** 6)), t.seed) for k in range(n)]
    extra = [(w[i][0], w[i][1].name, int(rng.randint(10 ** 6)), t.seed) for i in rng.randint(len(w), size=3)]
    t.describe([c[:3] for c in cases])
    a = spawn(cases, 1, 0)
    b = spawn(extra + cases[::-1], int(rng.randint(2, 4 * 10 ** 9)), int(rng.choice([1, 85, 170, 255])))
    calls = 0
    for c in cases:
        k = tuple(c[:3]); (ea, xa), (eb, xb) = a[k], b[k]
        d = diverge(ea, eb)
        t.check(d is None, "process-dependent", lambda: "%s/%s case %d in two processes: call %d (%s) differs first, in its %s" % (k + (d[1], d[2], d[0])))
        t.check(xa == xb, "process-dependent", lambda: "%s/%s case %d ends with %s / %s" % (k + (xa, xb)))
        for e in ea: t.seen((e[0], k[0], k[1]), 0)
        calls += len(ea)
    t.evaluations += 2 * calls; t.count("library calls", 2 * calls); t.count("process pairs")


class Keeper(object):
    """Mixin: a model that answers from a cache, and remembers what it handed out."""
    def likelihood(self, outcomes, modelparams, expparams):
        return self._keep('L', super(Keeper, self).likelihood, outcomes, modelparams, expparams)
    def score(self, outcomes, modelparams, expparams, return_L=False):
        if return_L: return super(Keeper, self).score(outcomes, modelparams, expparams, return_L=True)
        return self._keep('q', super(Keeper, self).score, outcomes, modelparams, expparams)
    def _keep(self, what, f, *args):
        key = (what,) + tuple((np.shape(a), np.asarray(a).tobytes()) for a in args)
        if key not in self.kept:
            r = f(*args); self.kept[key] = (r, np.array(r))
        self.answers += 1
        return self.kept[key][0]
    def clear_cache(self):
        super(Keeper, self).clear_cache(); self.kept = {}
    def intact(self):
        return [k[0] for k, (r, c) in self.kept.items() if np.asarray(r).tobytes() != c.tobytes()]


def keeper(m):
    while getattr(m, 'underlying_model', None) is not None: m = m.underlying_model
    m.__class__ = type("Kept" + type(m).__name__, (Keeper, type(m)), {}); m.kept = {}; m.answers = 0
    return m


def sec_cached(t):
    """Models may cache their likelihoods (clear_cache exists for that): decorators, updaters and designers leave the cached arrays alone."""
    import qinfer as qi
    from . import c28, gen
    rng = t.rng
    s = [c28.build, gen.any_spec, lambda r: c28.s_poisoned(r, c28.TWO[r.randint(len(c28.TWO))](r))][rng.randint(3)](rng)
    if getattr(s, 'parallel', False): raise Skip
    m = s.model; k = keeper(m)
    t.describe("cached " + s.name)
    pool = s.eps(rng, 3); pool = np.repeat(pool[:1], 3) if getattr(s, 'varies', False) else pool
    if 'n_meas' in (pool.dtype.names or ()): pool['n_meas'] = pool['n_meas'][0]
    mps = s.mps(rng, 5); o = s.arr([s.outs(pool[0])[0]])
    ale_ = s.name.startswith('ALE')
    u = None
    if not s.continuous:
        u = qi.SMCUpdater(m, 12, s.prior(), resample_thresh=float(rng.choice([0, .5])))
    def data():
        e = pool[rng.randint(3):][:1]; m_o = s.outs(e[0]); return s.arr([m_o[rng.randint(len(m_o))]])[0], e
    ops = {'likelihood': lambda: m.likelihood(o, mps, pool), 'simulate': lambda: m.simulate_experiment(mps, pool[:1], repeat=2)}
    if u is not None and not ale_:
        def upd():
            try: u.update(*data())
            except RuntimeError: pass
        def hyp(): u.hypothetical_update(o, pool[:2], return_likelihood=True, return_normalization=True)
        ops.update(update=upd, hypothetical=hyp)
        if not s.name.startswith('Multinomial'): ops.update(risk=lambda: u.bayes_risk(pool), gain=lambda: u.expected_information_gain(pool))
    if hasattr(m, 'score') and hasattr(m, 'fisher_information'):
        ops.update(score=lambda: m.score(o, mps, pool), fisher=lambda: m.fisher_information(mps, pool))
    first = {}
    for name in rng.choice(sorted(ops), 8):
        np.random.seed(7); r = ops[name]()
        bad = k.intact()
        t.check(not bad, "cached-answer-overwritten", lambda: "%s on %s changed an array the underlying model had returned" % (name, s.name))
        if name in ('likelihood', 'simulate', 'score', 'fisher'):
            r = np.array(r)
            if name in first: t.same(r, first[name], "repeated-call-differs", "%s on %s" % (name, s.name))
            first.setdefault(name, r)
        t.seen((s.name.split('(d=')[0], name, "cached"))
    t.count("answers from the cache", max(0, k.answers - len(k.kept)))


def sec_stored(t):
    """Priors, models and callers that hand out arrays they keep: the library never writes into them."""
    import qinfer as qi
    from . import gen
    rng = t.rng; d = int(rng.randint(1, 4)); n = int(rng.choice([3, 8, 20]))
    kept = []
    def keep(a): a = np.asarray(a); kept.append((a, a.copy())); return a
    store = {}
    def draw(r, k):
        if k not in store: store[k] = keep(rng.uniform(-1, 1, (k, d)))
        return store[k]

    class Pr(gen.FnPrior):
        def sample(self, n=1): return draw(None, n)
    step = bool(rng.randint(2)); canon = bool(rng.randint(2))

    class M(gen.LabModel):
        def canonicalize(self, m): return keep(np.abs(m)) if canon else m
        def update_timestep(self, m, e): return np.repeat((m * .9 if step else m)[:, :, None], len(e), axis=2)     # handed over to the updater
    m = M(d, 2, rng.normal(size=(d + 1, 6)))
    prior = Pr(lambda r, k: draw(r, k), d)
    kind = rng.randint(4)
    if kind == 1: prior = qi.ProductDistribution(prior, Pr(lambda r, k: draw(r, k), d)); m = M(2 * d, 2, rng.normal(size=(2 * d + 1, 6)))
    elif kind == 2: prior = qi.MixtureDistribution([.4, .6], [prior, Pr(lambda r, k: draw(r, k), d)])
    elif kind == 3: prior = qi.PostselectedDistribution(prior, m)
    t.describe("stored arrays: prior %s, canonical form %s, time step %s" % (type(prior).__name__, canon, step))
    def ok(what): t.check(all(a.tobytes() == b.tobytes() for a, b in kept), "stored-overwritten", "%s changed an array that a prior, model or caller keeps (%s)" % (what, type(prior).__name__)); t.seen((what, kind, canon, step))
    def mine(e): return keep(e)
    u = qi.SMCUpdater(m, n, prior, resample_thresh=float(rng.choice([0, .6])), canonicalize=bool(rng.randint(4)), zero_weight_policy=str(rng.choice(['reset', 'skip'])))
    ok('SMCUpdater')
    for _ in range(6):
        op = str(rng.choice(['update', 'batch_update', 'reset', 'reset some', 'sample', 'resample', 'hypothetical']))
        k = int(rng.randint(1, 4)); e = np.zeros(k, dtype=m.expparams_dtype); e['a'] = rng.uniform(-1, 1, e['a'].shape); mine(e)
        o = mine(rng.randint(0, 2, k))
        try:
            if op == 'update': u.update(int(o[0]), e[:1])
            elif op == 'batch_update': u.batch_update(o, e)
            elif op == 'reset': u.reset(n_particles=None if rng.rand() < .5 else int(rng.choice([3, 8])))
            elif op == 'reset some': u.reset(only_params=np.s_[:1])
            elif op == 'sample': prior.sample(int(rng.choice([1, 3, 8])))
            elif op == 'resample': u.resample()
            else: u.hypothetical_update(o, e)
        except RuntimeError: pass
        ok(op)
    t.count("arrays kept by others", len(kept))


def sec_owned(t):
    """What a call returns belongs to the caller: writing into it changes no later result."""
    import qinfer as qi
    from . import c15, c28, gen
    rng = t.rng; d = int(rng.randint(1, 4)); n = int(rng.choice([1, 2, 5, 12]))
    kind = ['distribution', 'model', 'updater', 'tomography'][rng.randint(4)]
    ops = {}
    if kind == 'distribution':
        x = rng.normal(size=(6, d)); w = rng.dirichlet(np.ones(6)); g = rng.normal(size=(d, d)); cov = g @ g.T + np.eye(d)
        make = [lambda: qi.ConstantDistribution(rng.normal(size=d)), lambda: qi.UniformDistribution(np.sort(rng.normal(size=(d, 2)), axis=1)), lambda: qi.NormalDistribution(.3, 2.),
                lambda: qi.MultivariateNormalDistribution(rng.normal(size=d), cov), lambda: qi.DiscreteUniformDistribution(4), lambda: qi.SlantedNormalDistribution(np.sort(rng.normal(size=(2, 2)), axis=1), .1), lambda: qi.LogNormalDistribution(.1, .5),
                lambda: qi.GammaDistribution(alpha=2., beta=1.), lambda: qi.BetaDistribution(2., 3.), lambda: qi.DirichletDistribution([1., 2., 3.]), lambda: qi.ParticleDistribution(particle_locations=x, particle_weights=w),
                lambda: qi.ProductDistribution(qi.ConstantDistribution([.2]), qi.NormalDistribution(0, 1)), lambda: qi.MixtureDistribution([.5, .5], [qi.NormalDistribution(0, 1), qi.ConstantDistribution([.7])]),
                lambda: qi.ConstrainedSumDistribution(qi.ProductDistribution(qi.UniformDistribution([0, 1]), qi.UniformDistribution([0, 1]))), lambda: qi.HaarUniform(), lambda: qi.GinibreUniform()]
        D = make[rng.randint(len(make))](); what = type(D).__name__; k = D.n_rvs
        ops = {'sample(%d)' % n: lambda: D.sample(n), 'sample()': lambda: D.sample(), 'n_rvs': lambda: D.n_rvs}
        if what == 'UniformDistribution': ops['grad_log_pdf'] = lambda: D.grad_log_pdf(np.full((2, k), .1))
        if what == 'ParticleDistribution':
            ops.update(est_mean=D.est_mean, cov=D.est_covariance_mtx, ellipsoid=lambda: D.est_credible_region(level=.7))
    elif kind == 'model':
        s = [gen.any_spec, lambda r: gen.lab(r, step=False)][rng.randint(2)](rng); m = s.model; what = s.name.split('(')[0]
        pool = s.eps(rng, 2)
        if getattr(s, 'varies', False): pool = pool[:1]
        mps = s.mps(rng, 4); o = s.arr([s.outs(pool[0])[0]])
        keepm, keepe = mps.copy(), pool.copy()
        args = lambda: (np.array(keepm), np.array(keepe))
        ops = {'likelihood': lambda: m.likelihood(o, *args()), 'simulate': lambda: m.simulate_experiment(*args(), repeat=2), 'n_outcomes': lambda: m.n_outcomes(args()[1]), 'valid': lambda: m.are_models_valid(args()[0]),
               'step': lambda: m.update_timestep(*args()), 'canon': lambda: m.canonicalize(args()[0]), 'distance': lambda: m.distance(args()[0], args()[0][::-1]), 'Q': None, 'domain': None}
        if hasattr(m, 'score') and hasattr(m, 'fisher_information'): ops.update(score=lambda: m.score(o, *args()), fisher=lambda: m.fisher_information(*args()))
    elif kind == 'tomography':
        from qinfer.tomography import bases
        b = bases.gell_mann_basis(int(rng.randint(2, 4))) if rng.randint(2) else bases.pauli_basis(1); what = 'basis'; st = rng.normal(size=(2, len(b.data)))
        ops = {'to_array': lambda: b.modelparams_to_state(st[0]).full(), 'from_state': lambda: b.state_to_modelparams(b.modelparams_to_state(st[1])), 'covariance': lambda: b.covariance_mtx_to_superop(np.eye(len(b.data))).full()}
    else:
        s = gen.lab(rng, step=False); u = qi.SMCUpdater(s.model, 12, s.prior(), resample_thresh=0); what = 'SMCUpdater'
        e = s.eps(rng, 2); o = s.arr(s.outs(e[0])[:1])
        try: u.update(o[0], e[:1])
        except RuntimeError: raise Skip
        ops = {'est_mean': u.est_mean, 'cov': u.est_covariance_mtx, 'sample': lambda: u.sample(3), 'hypothetical': lambda: u.hypothetical_update(o, e), 'risk': lambda: u.bayes_risk(e), 'gain': lambda: u.expected_information_gain(e),
               'credible': lambda: u.est_credible_region(level=.6), 'marginal': lambda: u.posterior_marginal(0, res=20)[1], 'norms': None}
    ops = {k: f for k, f in ops.items() if f is not None}
    t.describe("owned results: %s" % what)
    def run(name):
        np.random.seed(11)
        try: return ops[name]()
        except NotImplementedError: raise Skip
    names = sorted(ops)
    first = {q: np.array(run(q)) for q in names}
    for q in rng.permutation(names)[:6]:
        r = run(q)
        if isinstance(r, np.ndarray) and r.ndim and r.flags.writeable:
            r[...] = np.zeros((), r.dtype) if r.dtype.names else (~r if r.dtype == bool else 17)
        for q2 in names:
            t.same(np.array(run(q2)), first[q2], "result-shared", "writing into the result of %s changed %s of %s" % (q, q2, what))
        t.seen((what, q, "owned"))


SECTIONS = [Section("owned", sec_owned, 300, 4000), Section("stored", sec_stored, 200, 3000), Section("cached", sec_cached, 600, 6000), Section("memory", sec_memory, 1200, 12000), Section("process", sec_process, 8, 60)]
