"""C20: heuristics and experiment designers return the experiments they promise.

Monitor: every proposed experiment is checked field by field against the
documented rule, recomputed from the updater's public state; designers are
watched through the risk and cost evaluations they request from the updater.
"""
import math, copy
import numpy as np
import qinfer as qi
from qinfer.expdesign import OptimizationAlgorithms as OA
from .core import Section, Skip
from . import gen
from .c15 import chisq

RULE = ("an observation is one proposed experiment checked against its rule (or one law test); distinct means a different "
        "(heuristic or algorithm, model kind, option set, history position class)")
ASSUMPTIONS = ["a callable guess returns a fresh shape-(1,) record array; Heuristic instances as designer guesses are documented as not implemented",
               "fields that neither the rule nor other_fields determine are left at zero: anything else would depend on allocator contents",
               "optimised fields are scalar reals and objectives are finite and smooth"]


def build(rng, s, n=None):
    n = n or int(rng.choice([2, 3, 8, 40]))
    up = qi.SMCUpdater(s.model, n, s.prior(), resample_thresh=0.0, resampler=gen.RecordingResampler())
    return up


def advance(rng, s, up, k):
    """Observe k data with probability > 0 under the current cloud."""
    for _ in range(k):
        e = s.eps(rng, 1)
        L = up.model.likelihood(s.arr(s.outs(e[0])), up.particle_locations, e)[:, :, 0] @ up.particle_weights
        L = np.maximum(L, 0)
        o = s.arr([s.outs(e[0])[rng.choice(len(L), p=L / L.sum())]])
        up.update(o, e)


def sec_sparse(t):
    rng = t.rng
    scalar = rng.rand() < .4
    s = gen.s_precession(rng) if scalar else [gen.s_t2, gen.s_inversion, lambda r: gen.s_tomo(r, True), gen.lab, gen.s_binomial][rng.randint(5)](rng)
    dt = np.dtype(s.model.expparams_dtype)
    up = build(rng, s)
    kw = {}
    scale, base = 1, 9 / 8.
    if rng.rand() < .7: scale = kw['scale'] = float(10 ** rng.uniform(-3, 2))
    if rng.rand() < .7: base = kw['base'] = float(rng.choice([1.0, 1.05, 2., .5, 3]))
    others = {}
    if not scalar:
        reals = [f for f in dt.names if dt[f].kind == 'f' and dt[f].shape == ()]
        if not reals: raise Skip
        tf = kw['t_field'] = str(rng.choice(reals))
        for f in dt.names:
            if f != tf and rng.rand() < .7:
                v = rng.uniform(1, 9, dt[f].shape).astype(dt[f].base)
                others[f] = v if dt[f].shape else v[()]
        if others or rng.rand() < .5: kw['other_fields'] = dict(others)
    use_dict = rng.rand() < .5
    h = qi.ExpSparseHeuristic(up, **kw)
    t.describe((s.name, kw))
    total = 0
    if rng.rand() < .1:                              # late in a long run
        total = int(rng.randint(90, 260)); e1 = s.eps(rng, 1)
        for _ in range(total):
            L = up.model.likelihood(s.arr(s.outs(e1[0])), up.particle_locations, e1)[:, :, 0] @ up.particle_weights
            up.update(s.arr(s.outs(e1[0]))[int(np.argmax(L))], e1)
        t.count("long schedules")
    for step in range(int(rng.randint(2, 6))):
        for again in range(2):                       # asking does not advance the schedule
            junk = np.full(64, np.nan); del junk
            e = h()
            t.check(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == dt, "shape-or-type", lambda: "%r %s" % (e.dtype, e.shape))
            want = scale * base ** total
            tv = e if scalar else e[kw['t_field']]
            t.close(np.asarray(tv, float), np.array([want]), "sparse-time", rtol=1e-12 if dt != np.float32 else 1e-6, atol=0)
            if not scalar:
                for f in dt.names:
                    if f == kw['t_field']: continue
                    t.check(np.array_equal(e[f][0], others.get(f, np.zeros(dt[f].shape, dt[f].base))), "other-field",
                            lambda: "field %s is %r, expected %r" % (f, e[f][0], others.get(f, "zero")))
            t.seen((s.name.split("(")[0], "sparse", sorted(kw), min(total, 3), len(others)))
        k = int(rng.randint(0, 3))
        advance(rng, s, up, k); total += k
        if rng.rand() < .4: up.resample(); t.count("schedules continued over a resampling")
        if rng.rand() < .2: up.est_mean(); up.sample(2)
    if rng.rand() < .4:
        es = s.eps(rng, 3); L = [up.model.likelihood(s.arr(s.outs(e)), up.particle_locations, es[i:i + 1])[:, :, 0] @ up.particle_weights for i, e in enumerate(es)]
        up.batch_update(s.arr([s.outs(e)[int(np.argmax(l))] for e, l in zip(es, L)]), es, resample_interval=7)
        e = h(); tv = e if scalar else e[kw['t_field']]
        t.close(np.asarray(tv, float), np.array([scale * base ** (total + 3)]), "sparse-time", rtol=1e-12, atol=0, msg="after a batch of 3")
        t.seen((s.name.split("(")[0], "after batch"))
    if use_dict:      # the heuristic class made from the heuristic with fixed options
        from functools import partial
        e = partial(qi.ExpSparseHeuristic, **kw)(up)()
        t.seen(("partial",))


def sec_pgh(t):
    rng = t.rng
    d = int(rng.randint(1, 4))
    s = gen.s_inversion(rng) if rng.rand() < .5 else None
    if s is None:
        class M(gen.LabModel):
            vecfield = rng.rand() < .5
            @property
            def expparams_dtype(self):
                return [('a', 'float'), ('k', 'int'), ('z', 'int'), ('inv', 'float', (d,)) if self.vecfield else ('inv', 'float'), ('tt', 'float')]
        base = gen.lab(rng, d=d, vary=False, step=False, zero=False)
        K = base.model._K
        Qd = rng.uniform(.1, 3, d)
        if d > 1 and rng.rand() < .5: Qd[rng.randint(d)] = 0
        m = M(d, K, base.model._coef, Q=Qd if rng.rand() < .6 else None)
        def eps(r, n):
            e = np.zeros(n, dtype=m.expparams_dtype); e['a'] = r.uniform(-1, 1, n); return e
        s = gen.Spec("lab", m, base.mps, eps, lambda e: list(range(K)), m.ref)
        inv, tf = 'inv', 'tt'
        vec = m.vecfield
    else:
        d = 1; inv, tf, vec = 'w_', 't', True
    dt = np.dtype(s.model.expparams_dtype)
    n = int(rng.choice([2, 3, 5, 12]))
    up = build(rng, s, n)
    advance(rng, s, up, int(rng.randint(0, 4)))
    mode = rng.randint(5)
    if mode == 4:             # a concentrated posterior: distinct pairs are rare, but maxiters allows for that
        q = np.full(n, rng.uniform(.04, .2) / (n - 1)); q[rng.randint(n)] = 0; j = int(rng.randint(n)); q[j] = 0; q[j] = 1 - q.sum()
        if q[j] == 1: q[:] = 1. / n
        up.particle_weights = q
    if mode == 1:             # some coinciding particles
        up.particle_locations[1] = up.particle_locations[0]
    if mode == 2 and n > 2:   # particles that differ, at distance zero: only in parameters without weight
        k = np.asarray(s.model.Q) > 0
        up.particle_locations[1, k] = up.particle_locations[0, k]
    X, w = up.particle_locations.copy(), up.particle_weights.copy()
    kw = dict(inv_field=inv, t_field=tf)
    if inv == 'x_' and rng.rand() < .5: kw.pop('inv_field')
    if tf == 't' and rng.rand() < .5: kw.pop('t_field')
    invf = lambda x: x; tfn = lambda v: v
    if not vec or rng.rand() < .4:
        c = rng.normal(size=d)
        if vec: invf = lambda x: 2 * x + 1
        else: invf = lambda x: x @ c
        kw['inv_func'] = invf
    if rng.rand() < .4:
        tfn = lambda v: 3 * v + .25; kw['t_func'] = tfn
    others = {}
    for f in dt.names:
        if f not in (inv, tf) and rng.rand() < .6:
            others[f] = rng.uniform(1, 5, dt[f].shape).astype(dt[f].base)[()]
    if others or rng.rand() < .3: kw['other_fields'] = dict(others)
    if rng.rand() < .1: others[tf] = 7.5; kw['other_fields'] = dict(others)     # explicit values win
    miters = 10
    if rng.rand() < .4: miters = kw['maxiters'] = int(rng.choice([1, 2, 30]))
    if mode == 4 and rng.rand() < .8: miters = kw['maxiters'] = int(rng.choice([60, 400]))
    h = qi.PGH(up, **kw)
    Q = np.asarray(s.model.Q, float)
    D = np.array([[np.sum(np.abs(Q * (a - b))) for b in X] for a in X])
    same = float(sum(w[i] * w[j] for i in range(n) for j in range(n) if D[i, j] == 0))
    t.describe((s.name, d, n, kw, w.round(3)))

    def one():
        """(i, j) drawn, or None on the documented failure."""
        junk = np.full(16, np.nan); del junk
        try: e = h()
        except RuntimeError: return None
        t.check(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == dt, "shape-or-type", lambda: "%r %s" % (e.dtype, e.shape))
        cand = [i for i in range(n) if w[i] > 0 and np.allclose(e[inv], np.asarray(invf(X[i:i + 1])).reshape(e[inv].shape), rtol=1e-12, atol=0)]
        t.check(cand, "guess-not-a-particle", lambda: "inversion field %r comes from no particle of positive weight" % (e[inv],))
        if tf in others:
            t.check(e[tf][0] == others[tf], "other-field", "explicit time not used")
            return cand[0], None
        pairs = [(i, j) for i in cand for j in range(n) if w[j] > 0 and D[i, j] > 0 and np.isclose(e[tf][0], tfn(1 / D[i, j]), rtol=1e-9, atol=0)]
        t.check(pairs, "time-not-inverse-distance", lambda: "t=%r is the inverse distance of no pair with x=%r; inverse distances %s" % (e[tf][0], e[inv], [1 / D[i, j] for i in cand for j in range(n) if D[i, j] > 0]))
        for f in dt.names:
            if f not in (inv, tf):
                t.check(np.array_equal(e[f][0], others.get(f, np.zeros(dt[f].shape, dt[f].base))), "other-field", lambda: "field %s is %r, expected %r" % (f, e[f][0], others.get(f, "zero")))
        return pairs[0]
    for _ in range(6):
        r = one()
        t.check(r is not None or same ** miters > 1e-12, "spurious-failure", "distinct particles exist")
        t.seen((s.name.split("(")[0], "pgh", sorted(kw), mode, r is None))
    t.check(np.array_equal(up.particle_locations, X) and np.array_equal(up.particle_weights, w), "posterior-changed", "")
    if tf in others: return
    # law: pairs of distinct particles, drawn independently from the posterior
    P = np.outer(w, w) * (D > 0)
    tot = P.sum()
    if tot <= 0: raise Skip
    pf = same ** miters
    first = {}
    for i in range(n):          # coinciding particles cannot be told apart
        first[i] = next(j for j in range(n) if np.array_equal(X[i], X[j]))
    G = np.zeros((n, n))
    for i in range(n):
        for j in range(n): G[first[i], first[j]] += P[i, j]
    probs = np.append((G / tot).ravel() * (1 - pf), pf)
    # pairs indistinguishable from their record (equal inverse distance to the same guess) are merged through one()'s first match
    key = {}
    for i in range(n):
        for j in range(n):
            if G[i, j] > 0:
                k2 = [jj for jj in range(n) if D[i, jj] > 0 and w[jj] > 0 and np.isclose(tfn(1 / D[i, jj]), tfn(1 / D[i, j]), rtol=1e-9, atol=0)][0]
                key[i, j] = (i, first[k2])
    if kw.get('inv_func') is not None and len({tuple(np.ravel(invf(X[i:i + 1]))) for i in set(first.values())}) < len(set(first.values())): return
    merged = np.zeros((n, n))
    for (i, j), (a, b) in key.items(): merged[a, b] += G[i, j]
    probs[:-1] = (merged / tot).ravel() * (1 - pf)

    def law(N):
        c = np.zeros(n * n + 1)
        for _ in range(N):
            r = one()
            if r is None: c[-1] += 1
            else: c[first[r[0]] * n + first[r[1]]] += 1
        t.check(not np.any((c > 0) & (probs <= 0)), "impossible-pair", "a pair of probability zero was used")
        return chisq(c, probs), "pairs used by PGH"
    t.stat("pair-law", law, 250, growth=3)


def sec_pgh_stuck(t):
    """All weight on coinciding particles: the documented RuntimeError, after exactly maxiters draws."""
    rng = t.rng
    s = gen.s_inversion(rng)
    up = build(rng, s, 4)
    if rng.rand() < .5:
        up.particle_locations[:] = up.particle_locations[0]
    else:
        up.particle_weights[:] = [0, 0, 1, 0]
    k = int(rng.choice([1, 3, 10]))
    kw = dict(maxiters=k) if k != 10 or rng.rand() < .5 else {}
    h = qi.PGH(up, inv_field='w_', **kw)
    try: e = h()
    except RuntimeError: t.seen(("stuck", k, len(kw)))
    else: t.fail("no-failure", "no distinct particles exist, but got %r" % (e,))


def sec_ensemble(t):
    rng = t.rng
    k = int(rng.randint(1, 5))
    pr = rng.dirichlet(np.ones(k))
    if k > 1 and rng.rand() < .3: pr[0] = 0; pr /= pr.sum()
    calls = []

    class H(qi.Heuristic):
        def __init__(self, i): self.i = i
        def __call__(self, *a):
            calls.append((self.i, a)); return np.array([float(self.i)])
    hs = [H(i) for i in range(k)]
    ens = [(h, float(p)) for h, p in zip(hs, pr)]
    if rng.rand() < .3: ens = [(h if i % 2 else h.__call__, p) for i, (h, p) in enumerate(ens)]
    E = qi.EnsembleHeuristic(ens)
    t.describe((k, pr))

    def law(n):
        c = np.zeros(k)
        for _ in range(n):
            del calls[:]
            a = tuple(rng.randint(9, size=rng.randint(3)))
            e = E(*a)
            t.check(len(calls) == 1 and calls[0][1] == a, "arguments", lambda: "members called %r for %r" % (calls, a))
            t.check(e.shape == (1,) and e[0] == calls[0][0], "wrong-experiment", lambda: "%r" % e)
            c[calls[0][0]] += 1
        t.check(not np.any((c > 0) & (pr == 0)), "impossible-member", "a member of probability zero was used")
        return chisq(c, pr), "ensemble"
    t.stat("member-law", law, 600)
    t.seen(("ensemble", k, bool((pr == 0).any())))


def costed(rng):
    """A model whose experiment cost is a chosen smooth function of one field."""
    base = gen.lab(rng, d=int(rng.randint(1, 3)), vary=False, step=False, zero=False)
    K = base.model._K
    kind = int(rng.randint(3)); c0 = float(rng.uniform(-1, 2))

    class M(gen.LabModel):
        def experiment_cost(self, e):
            a = np.asarray(e['a'], float)
            return [1 + (a - c0) ** 2, np.exp(.3 * a), 1 + .2 * np.abs(a) ** 2][kind]
    m = M(base.model._d, K, base.model._coef, Q=rng.uniform(.5, 2, base.model._d))
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['a'] = r.uniform(-1.5, 2, n); e['k'] = r.randint(0, 4, n); return e
    return gen.Spec("costed%d" % kind, m, base.mps, eps, lambda e: list(range(K)), m.ref), kind, c0


ALGOS = ["NULL", "CG", "NCG", "NELDER_MEAD"]


class Rig(object):
    def __init__(self, t, algo, n=12):
        rng = self.rng = t.rng; self.t = t
        self.s, self.kind, self.c0 = costed(rng)
        self.up = build(rng, self.s, n); advance(rng, self.s, self.up, int(rng.randint(0, 3)))
        self.algo = algo
        self.log = []
        orig = self.up.bayes_risk
        def spy(ep):
            self.log.append(np.array(ep)); return orig(ep)
        self.up.bayes_risk = spy
        self.orig = orig
        args = () if algo == "CG" and rng.rand() < .5 else (getattr(OA, algo),)
        self.des = qi.ExperimentDesigner(self.up, *args)
        self.k = float(rng.choice([0., 1., .1, 5.])); self.mult = bool(rng.rand() < .4)
        if not self.mult and self.kind == 1 and self.k: pass

    def obj(self, e):
        r = float(np.ravel(self.orig(np.array(e)))[0]); c = float(np.ravel(self.s.model.experiment_cost(np.array(e)))[0])
        return r * c ** self.k if self.mult else r + self.k * c

    def kw(self):
        k = dict(cost_scale_k=self.k) if self.k != 1 or self.rng.rand() < .5 else {}
        if self.mult: k['cost_mult'] = True
        return k

    def design(self, guess, **kw):
        t, rng = self.t, self.rng
        del self.log[:]
        g = np.array(guess); calls = []
        X, w = self.up.particle_locations.copy(), self.up.particle_weights.copy()
        if rng.rand() < .3:
            def fn(idx_exp, mean, cov):
                calls.append((idx_exp, np.array(mean), np.array(cov))); return np.array(guess)
            arg = fn
        else:
            arg = guess
        e = self.des.design_expparams_field(arg, 'a', **dict(self.kw(), **kw))
        if arg is not guess:
            t.check(len(calls) == 1, "guess-function", "called %d times" % len(calls))
            t.check(calls[0][0] == len(self.up.data_record), "guess-function", "idx_exp %r" % calls[0][0])
            t.close(calls[0][1], self.up.est_mean(), "guess-function"); t.close(calls[0][2], self.up.est_covariance_mtx(), "guess-function")
        t.same(guess, g, "guess-modified")
        t.check(np.array_equal(self.up.particle_locations, X) and np.array_equal(self.up.particle_weights, w), "posterior-changed", "")
        t.check(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == g.dtype, "shape-or-type", lambda: "%r" % (e,))
        for c in self.log:
            for f in g.dtype.names:
                if f != 'a': t.check(np.array_equal(c[f], g[f]), "other-field-varied", lambda: "candidate %r for guess %r" % (c, g))
        t.count("objective evaluations", len(self.log))
        return np.array(e), g


def sec_design(t):
    rng = t.rng
    algo = ALGOS[rng.randint(4)]
    R = Rig(t, algo)
    lim = {}
    if rng.rand() < .3 and algo in ("CG", "NELDER_MEAD"): lim['maxiter'] = int(rng.randint(0, 6))
    if rng.rand() < .3 and algo in ("NCG", "NELDER_MEAD"): lim['maxfun'] = int(rng.randint(4, 20))
    if rng.rand() < .3 and algo == "NCG": lim['grad_h'] = 1e-5
    t.describe((algo, R.s.name, R.k, R.mult, lim))
    for _ in range(3):
        g = R.s.eps(rng, 1)
        e, g0 = R.design(g, **lim)
        for f in g0.dtype.names:
            if f != 'a': t.check(np.array_equal(e[f], g0[f]), "other-field-changed", lambda: "%r from guess %r" % (e, g0))
        if algo == "NULL": t.same(e, g0, "null-moved")
        a, b = R.obj(e), R.obj(g0)
        t.check(a <= b + 1e-9 * (1 + abs(b)), "worse-than-guess", lambda: "%s: objective %.12g at the design, %.12g at the guess" % (algo, a, b))
        if 'maxfun' in lim: t.check(len(R.log) <= (lim['maxfun'] + 7 if algo == "NELDER_MEAD" else 3 * lim['maxfun'] + 12), "maxfun-ignored", "%d objective calls, maxfun=%d" % (len(R.log), lim['maxfun']))
        if 'maxiter' in lim: t.check(len(R.log) <= (60 * lim['maxiter'] + 60 if lim['maxiter'] else 12), "maxiter-ignored", "%d objective calls, maxiter=%d" % (len(R.log), lim['maxiter']))
        t.seen((algo, R.s.name, R.k, R.mult, sorted(lim), a < b))


def sec_effective(t):
    """With an objective dominated by a bowl-shaped cost, every optimiser finds the bottom."""
    rng = t.rng
    algo = ALGOS[1 + rng.randint(3)]
    R = Rig(t, algo)
    for _ in range(20):
        if R.kind == 0: break
        R = Rig(t, algo)
    else:
        raise Skip
    R.k, R.mult = (5., False) if rng.rand() < .6 else (3., True)
    tries = []
    for _ in range(3):               # a line search may give up; not three times
        g = R.s.eps(rng, 1); g['a'] = R.c0 + rng.choice([-1, 1]) * rng.uniform(.6, 1.)
        e, g0 = R.design(g)
        b = np.array(g0); b['a'] = R.c0
        tries.append((float(g0['a'][0]), float(e['a'][0]), R.obj(g0), R.obj(e), R.obj(b)))
        t.seen((algo, "effective", R.mult))
        if R.obj(e) <= R.obj(b) + .1 * (R.obj(g0) - R.obj(b)): break
    else:
        t.fail("no-improvement", "%s: (guess, design, objective at each, objective at the cost's minimum %r): %s" % (algo, R.c0, tries))


def sec_store(t):
    rng = t.rng
    algo = ["NULL", "NULL", "CG", "NCG", "NELDER_MEAD"][rng.randint(5)]
    R = Rig(t, algo, n=8)
    best = None; guesses = []
    t.describe((algo, R.s.name, R.k, R.mult))
    for step in range(int(rng.randint(3, 8))):
        r = rng.rand()
        if r < .15:
            R.des.new_exp(); best = None; guesses = []
            t.seen((algo, "new_exp")); continue
        g = R.s.eps(rng, 1)
        if r < .3:           # not stored: neither uses nor changes what is remembered
            e, g0 = R.design(g)
            if algo == "NULL": t.same(e, g0, "unstored-guess-replaced")
            for f in g0.dtype.names:
                if f != 'a': t.check(np.array_equal(e[f], g0[f]), "unstored-guess-replaced", lambda: "%r from %r" % (e, g0))
            t.seen((algo, "unstored", best is not None)); continue
        e, g0 = R.design(g, store_guess=True)
        guesses.append(R.obj(g0)); now = R.obj(e)
        tol = 1e-8 * (1 + abs(now))
        t.check(now <= min(guesses) + tol, "stored-best-lost", lambda: "returned cost %.12g; guesses so far %s" % (now, guesses))
        if best is not None:
            t.check(now <= best[1] + tol, "stored-best-lost", lambda: "returned cost %.12g, best so far %.12g" % (now, best[1]))
            keep = np.array_equal(e, best[0])
            if not keep:
                t.check(now <= best[1] + tol, "better-replaced", "")
                for f in g0.dtype.names:
                    if f != 'a': t.check(np.array_equal(e[f], g0[f]), "mixed-up-fields", lambda: "%r is neither the best %r nor from the guess %r" % (e, best[0], g0))
        if algo == "NULL":
            if best is None or guesses[-1] < best[1] - tol: t.same(e, g0, "better-guess-not-taken")
            elif guesses[-1] > best[1] + tol: t.same(e, best[0], "best-not-returned")
        else:
            if best is not None and guesses[-1] < best[1] - tol:
                for f in g0.dtype.names:
                    if f != 'a': t.check(np.array_equal(e[f], g0[f]), "better-guess-not-taken", "")
        if algo == "NULL" or best is None or now < best[1] - tol or np.array_equal(e, best[0]):
            t.seen((algo, "stored", best is None, best is not None and now < best[1]))
        best = (e, now)
    t.check(True, "")


def sec_algo(t):
    """Unknown algorithms are refused; the documented default is CG."""
    rng = t.rng
    s, _, _ = costed(rng); up = build(rng, s, 3)
    for bad in (17, -1, "CG", None):
        try: qi.ExperimentDesigner(up, bad)
        except ValueError: t.seen(("refused", repr(bad)))
        else: t.fail("unknown-algorithm", "%r accepted" % (bad,))
    h = qi.PGH(build(rng, gen.s_inversion(rng), 5), inv_field='w_')
    t.check(isinstance(h, qi.Heuristic), "not-a-heuristic", "")


SECTIONS = [
    Section("sparse", sec_sparse, 120),
    Section("pgh", sec_pgh, 60),
    Section("pgh_stuck", sec_pgh_stuck, 12),
    Section("ensemble", sec_ensemble, 24),
    Section("design", sec_design, 40),
    Section("effective", sec_effective, 16),
    Section("store", sec_store, 200),
    Section("algo", sec_algo, 2),
]
