"""C28: every model evaluation and simulation is counted once.

Monitor: every model of a decorator chain is instrumented to log each
likelihood and simulation call it receives (including calls the library makes
internally); counters are reconciled with the logs after every operation.
"""
import copy, pickle
import numpy as np
import qinfer as qi
import qinfer.ale as ale
from qinfer.abstract_model import LinearCostModelMixin
from qinfer.score import ScoreMixin
from .core import Section, Skip
from . import gen
from .c17 import LabView

RULE = ("an observation is one operation after which every counter in the decorator chain is reconciled with the log of calls received; "
        "distinct means a different (model chain, operation, batch shape class) combination")
ASSUMPTIONS = ["calls the library makes internally are calls and count like any other", "an adaptive likelihood estimator reports its simulator's simulation counter",
               "a copy starts with the counters of its original and counts on its own"]

N_OUT = lambda o: o.shape[0] if isinstance(o, np.ndarray) and o.ndim else len(o) if isinstance(o, (list, tuple)) else 1


class Spy(object):
    def likelihood(self, outcomes, modelparams, expparams):
        self.spy_L += N_OUT(outcomes) * len(modelparams) * len(expparams); self.spy_calls += 1
        return super(Spy, self).likelihood(outcomes, modelparams, expparams)
    def simulate_experiment(self, modelparams, expparams, repeat=1):
        self.spy_S += len(modelparams) * len(expparams) * repeat; self.spy_calls += 1
        return super(Spy, self).simulate_experiment(modelparams, expparams, repeat)


def spy(m):
    m.__class__ = type("Spy" + type(m).__name__, (Spy, type(m)), {})
    m.spy_L = m.spy_S = m.spy_calls = 0
    return m


class NumericPrecession(ScoreMixin, qi.SimplePrecessionModel):
    _h = 1e-5


def s_poisoned(rng, base):
    kw = [dict(tol=.05), dict(n_samples=20, hedge=.1), dict(n_samples=5)][rng.randint(3)]
    return gen.Spec("Poisoned(%s)" % base.name, qi.PoisonedModel(base.model, **kw), base.mps, base.eps, base.outs, None, base=base, odtype=getattr(base, 'odtype', None))


def s_ale(rng, base):
    return gen.Spec("ALE(%s)" % base.name, ale.ALEApproximateModel(base.model, error_tol=.3, min_samp=3, samp_step=4), base.mps, base.eps, base.outs, None, base=base)


def s_parallel(rng, base):
    v = LabView(int(rng.randint(1, 4)), rng)
    return gen.Spec("Parallel(%s)" % base.name, qi.DirectViewParallelizedModel(base.model, v, serial_threshold=int(rng.choice([1, 4, 50]))), base.mps, base.eps, base.outs, None, base=base,
                    odtype=getattr(base, 'odtype', None), parallel=True)


def s_grw_learned(rng, base):
    b = [gen.s_innercoin, gen.s_inversion, gen.s_precession][rng.randint(3)](rng); n = b.model.n_modelparams
    m = qi.GaussianRandomWalkModel(b.model)
    def mps(r, k): return np.column_stack([b.mps(r, k), r.uniform(1e-4, 1e-3, (k, m.n_modelparams - n))])
    return gen.Spec("LearnedWalk(%s)" % b.name, m, mps, b.eps, b.outs, None, base=b)


BASES = [gen.s_precession, gen.s_inversion, gen.s_coin, gen.s_ndie, gen.s_rb, gen.s_tomo, lambda r: gen.s_tomo(r, diffusive=True),
         lambda r: gen.lab(r), lambda r: gen.Spec("NumericPrecession", NumericPrecession(), *[getattr(gen.s_precession(r), k) for k in ('mps', 'eps', 'outs', 'pr')], diff=True)]
TWO = [gen.s_precession, gen.s_inversion, gen.s_coin, gen.s_rb, gen.s_tomo]
FIXED = [gen.s_precession, gen.s_inversion, gen.s_coin, gen.s_rb, gen.s_ndie]


def build(rng):
    k = rng.randint(13)
    b = BASES[rng.randint(len(BASES))](rng)
    if k <= 2: return b
    if k == 3: return gen.s_binomial(rng, TWO[rng.randint(len(TWO))](rng))
    if k == 4: return gen.s_multinomial(rng, [gen.s_ndie, gen.s_coin, gen.s_precession, gen.s_rb][rng.randint(4)](rng))
    if k == 5: return gen.s_mle(rng, FIXED[rng.randint(len(FIXED))](rng))
    if k == 6: return gen.s_gauss(rng, [gen.s_coin, gen.s_precession, gen.s_rb][rng.randint(3)](rng))
    if k == 7: return s_poisoned(rng, TWO[rng.randint(len(TWO))](rng))
    if k == 8: return s_ale(rng, TWO[rng.randint(len(TWO))](rng))
    if k == 9: return s_parallel(rng, [gen.s_precession, gen.s_coin, gen.s_ndie, gen.s_rb, gen.s_tomo][rng.randint(5)](rng))
    if k == 10: return s_grw_learned(rng, None) if rng.rand() < .5 else gen.s_grw_fixed(rng)
    if k == 11: return gen.s_rw(rng)
    i = gen.s_binomial(rng, TWO[rng.randint(len(TWO))](rng))                       # two decorators
    return [gen.s_mle, s_poisoned][rng.randint(2)](rng, i)


def chain(m):
    return [m] + [c for c in reversed(m.model_chain)] if hasattr(m, 'underlying_model') else [m]


def instances(m):
    out = [m]
    while hasattr(out[-1], 'underlying_model') and out[-1].underlying_model is not None: out.append(out[-1].underlying_model)
    return out


def queries(rng, s, m, mps, eps):
    """Operations that must not count anything."""
    q = {'n_modelparams': lambda: m.n_modelparams, 'names': lambda: m.modelparam_names, 'dtype': lambda: m.expparams_dtype, 'Q': lambda: m.Q,
         'const': lambda: m.is_n_outcomes_constant, 'valid': lambda: m.are_models_valid(mps), 'valid1': lambda: m.is_model_valid(mps[0]), 'canon': lambda: m.canonicalize(mps.copy()),
         'cost': lambda: m.experiment_cost(eps), 'distance': lambda: m.distance(mps, mps[::-1]), 'domain': lambda: m.domain(eps), 'clear': lambda: m.clear_cache(),
         'step': lambda: m.update_timestep(mps, eps), 'counts': lambda: (m.sim_count, m.call_count), 'base': lambda: m.base_model, 'chain': lambda: m.model_chain,
         'consistent': lambda: m.are_expparam_dtypes_consistent(eps)}
    if not s.continuous: q['n_outcomes'] = lambda: m.n_outcomes(eps)
    k = list(q)[rng.randint(len(q))]
    return k, q[k]


def shapes(rng): return [(1, 1), (1, 1), (1, 4), (6, 1), (5, 3)][rng.randint(5)]


def outcomes_for(rng, s, eps):
    outs = s.outs(eps[0]); o = [outs[i] for i in rng.randint(len(outs), size=int(rng.choice([1, 2, 4])))]
    return s.arr(o)


def sec_logged(t):
    rng = t.rng
    s = build(rng); m = s.model
    par = getattr(s, 'parallel', False)
    ins = [spy(m)] if par else [spy(x) for x in instances(m)]
    t.describe((s.name, len(ins)))
    for x in ins: t.check(x.call_count == 0 and x.sim_count == 0, "fresh-counter", lambda: "%s %s" % (x.call_count, x.sim_count))
    isale = type(m).__mro__[2].__name__ == 'ALEApproximateModel'
    for _ in range(int(rng.randint(3, 9))):
        nm, ne = shapes(rng); mps = s.mps(rng, nm); eps = s.eps(rng, ne)
        if getattr(s, 'varies', False): eps = np.repeat(eps[:1], ne)
        before = [(x.call_count, x.sim_count, x.spy_L, x.spy_S) for x in ins]
        op = ['likelihood', 'simulate', 'query', 'infer', 'score'][rng.randint(5)]
        want = [None, None]
        if op == 'likelihood':
            o = outcomes_for(rng, s, eps)
            if s.continuous: o = np.asarray(o)
            m.likelihood(o, mps, eps); want = [N_OUT(o) * nm * ne, None if isale else 0]
        elif op == 'simulate':
            r = int(rng.choice([1, 1, 2, 5]))
            if rng.rand() < .5 and r == 1: m.simulate_experiment(mps, eps)
            else: m.simulate_experiment(mps, eps, repeat=r)
            want = [None, r * nm * ne]
        elif op == 'query':
            k, f = queries(rng, s, m, mps, eps); f(); op = k; want = [0, 0]
        elif op == 'infer':
            if s.continuous or s.name.startswith(('Multinomial', 'Diffusive', 'LearnedWalk')): continue
            u = qi.SMCUpdater(m, 6, gen.FnPrior(s.mps, m.n_modelparams), zero_weight_policy='ignore')
            e = eps[:1]; u.update(s.arr([s.outs(e[0])[0]]), e)
            if rng.rand() < .5 and not isale and not s.name.startswith('Poisoned'): u.hypothetical_update(s.arr([s.outs(e[0])[0]]), e)
            want = [None, None]
        else:
            if not getattr(s, 'diff', False): continue
            m.score(np.array([0, 1]), mps, eps, return_L=True) if rng.rand() < .5 else m.fisher_information(mps, eps); want = [None, 0]
        for i, (x, b) in enumerate(zip(ins, before)):
            t.check(x.call_count - b[0] == x.spy_L - b[2], "likelihood-count", lambda: "%s in %s: %s evaluated %d likelihoods and counted %d" % (op, s.name, type(x).__name__[3:], x.spy_L - b[2], x.call_count - b[0]))
            if not (isale and i == 0):
                t.check(x.sim_count - b[1] == x.spy_S - b[3], "simulation-count", lambda: "%s in %s: %s simulated %d and counted %d" % (op, s.name, type(x).__name__[3:], x.spy_S - b[3], x.sim_count - b[1]))
        if isale: t.check(m.sim_count == ins[1].sim_count, "simulation-count", "ALE")
        if want[0] is not None: t.check(m.call_count - before[0][0] == want[0], "likelihood-count", lambda: "%s in %s of shape %s: %d counted, expected %d" % (op, s.name, (nm, ne), m.call_count - before[0][0], want[0]))
        if want[1] is not None: t.check(m.sim_count - before[0][1] == want[1], "simulation-count", lambda: "%s in %s of shape %s: %d counted, expected %d" % (op, s.name, (nm, ne), m.sim_count - before[0][1], want[1]))
        t.count("logged calls", sum(x.spy_calls for x in ins))
        t.seen((s.name.split('(d=')[0], op, (nm > 1, ne > 1)))


def sec_copies(t):
    """Copies, pickles and cache clearing keep counters and results."""
    rng = t.rng
    s = build(rng)
    if getattr(s, 'parallel', False) or 'RandomWalk' in s.name or 'LearnedWalk' in s.name: raise Skip
    m = s.model
    t.describe(s.name)
    nm, ne = shapes(rng); mps = s.mps(rng, nm); eps = s.eps(rng, ne); eps = np.repeat(eps[:1], ne) if getattr(s, 'varies', False) else eps
    o = np.asarray(outcomes_for(rng, s, eps))
    for _ in range(int(rng.randint(3))): m.likelihood(o, mps, eps); m.simulate_experiment(mps, eps, repeat=2)
    sd = int(rng.randint(2 ** 31))
    def result(x):
        np.random.seed(sd); return np.asarray(x.likelihood(o, mps, eps)), np.asarray(x.simulate_experiment(mps, eps, repeat=3))
    def counts(x): return [(y.call_count, y.sim_count) for y in instances(x)]
    c0 = counts(m)
    kind = rng.randint(4)
    if kind == 0: c = copy.deepcopy(m)
    elif kind == 1: c = pickle.loads(pickle.dumps(m, protocol=2))
    elif kind == 2: c = copy.copy(m)
    else: m.clear_cache(); c = m
    t.check(counts(c) == c0 and counts(m) == c0, "copy-changes-counter", lambda: "%s, copy %s, before %s" % (counts(m), counts(c), c0))
    a = result(c)
    if kind in (0, 1): t.check(counts(m) == c0, "copy-shares-counter", lambda: "%s -> %s" % (c0, counts(m)))
    d = counts(c)
    b = result(m)
    for x, y in zip(a, b): t.same(x, y, "copy-gives-other-results")
    if kind in (0, 1): t.check(counts(m) == d, "copy-counts-differently", lambda: "%s, copy %s" % (counts(m), d))
    m.clear_cache(); r = result(m)
    for x, y in zip(r, b): t.same(x, y, "clear_cache-changes-results")
    t.seen((s.name.split('(d=')[0], kind))


class Slow(LinearCostModelMixin, qi.SimpleInversionModel): pass
class Wide(LinearCostModelMixin, qi.SimpleInversionModel): _field = 'w_'


def sec_cost(t):
    rng = t.rng
    s = build(rng); n = int(rng.randint(1, 7)); eps = s.eps(rng, n)
    t.describe(s.name)
    c = s.model.experiment_cost(eps)
    shape = (2, n) if rng.rand() < .5 else (n, 1)
    many = np.resize(eps, shape)
    t.check(np.shape(s.model.experiment_cost(many)) == shape, "cost-shape", lambda: "%s costs for experiments of shape %s" % (np.shape(s.model.experiment_cost(many)), shape))
    t.check(np.shape(c) == (n,) and np.asarray(c).dtype.kind == 'f', "cost-shape", lambda: repr(c)); t.close(c, np.ones(n), "cost")
    b = gen.s_inversion(rng); eps = b.eps(rng, n)
    t.same(Slow().experiment_cost(eps), np.ascontiguousarray(eps['t']), "linear-cost"); t.same(Wide().experiment_cost(eps), np.ascontiguousarray(eps['w_']), "linear-cost-field")
    k = int(rng.randint(1, 6)); x, y = s.mps(rng, k), s.mps(rng, k)
    want = [sum(abs(q * (u - v)) for q, u, v in zip(np.ravel(s.model.Q), x[i], y[i])) for i in range(k)]
    t.close(s.model.distance(x, y), np.array(want), "distance")
    t.seen((s.name.split('(d=')[0], n > 1))


def sec_empty(t):
    """Nothing evaluated, nothing counted."""
    rng = t.rng
    s = [gen.s_precession, gen.s_inversion, gen.s_coin, gen.s_ndie, gen.s_rb, gen.s_mle][rng.randint(6)](rng); m = s.model
    nm, ne = [(0, 3), (3, 0), (0, 0)][rng.randint(3)]
    mps, eps = s.mps(rng, 3)[:nm], s.eps(rng, 3)[:ne]
    t.describe((s.name, nm, ne))
    ins = instances(m); op = rng.randint(2)
    try:
        if op: m.simulate_experiment(mps, eps, repeat=int(rng.randint(1, 4)))
        else: m.likelihood(np.array([0, 1]), mps, eps)
    except Exception: raise Skip          # no model has to accept an empty batch
    for x in ins: t.check(x.call_count == 0 and x.sim_count == 0, "empty-batch-counted", lambda: "%s: %d likelihoods, %d simulations" % (type(x).__name__, x.call_count, x.sim_count))
    t.seen((s.name.split('(d=')[0], nm, ne, op))


def sec_uncounted(t):
    """Models of test_models.py whose likelihood does not call the superclass."""
    name, mk = [('UnknownT2Model', gen.s_t2), ('NoisyCoinModel', gen.s_noisy)][t.idx % 2]
    s = mk(t.rng); nm, ne = shapes(t.rng)
    s.model.likelihood(np.array([0, 1]), s.mps(t.rng, nm), s.eps(t.rng, ne))
    s.model.simulate_experiment(s.mps(t.rng, nm), s.eps(t.rng, ne), repeat=2)
    t.describe(name); t.seen((name, nm, ne))
    t.check(s.model.sim_count == 2 * nm * ne, "simulation-count-" + name, lambda: repr(s.model.sim_count))
    t.check(s.model.call_count >= 2 * nm * ne, "likelihood-count-" + name, lambda: "%d counted after evaluating %d" % (s.model.call_count, 2 * nm * ne))


SECTIONS = [Section("logged", sec_logged, 600), Section("copies", sec_copies, 200), Section("cost", sec_cost, 80), Section("empty", sec_empty, 40), Section("uncounted", sec_uncounted, 8)]
