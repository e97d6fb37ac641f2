"""Workload generators: models with independently written reference laws.

A Spec bundles a model of the library with generators of valid parameters and
experiments, the list of outcomes of an experiment, and `pr(o, x, e)`: the
documented probability, written in plain Python from the documentation.
"""
import math, itertools, copy
import numpy as np
import qinfer as qi
from qinfer.abstract_model import FiniteOutcomeModel, Model
from qinfer.domains import IntegerDomain
from qinfer.distributions import Distribution


class FnPrior(Distribution):
    """Prior drawing with the library-visible global generator; records its samples."""
    def __init__(self, draw, n_rvs):
        self._draw, self._n = draw, n_rvs
        self.samples = []

    @property
    def n_rvs(self):
        return self._n

    def sample(self, n=1):
        s = np.array(self._draw(np.random.mtrand._rand, int(n)), dtype=float)
        self.samples.append(s.copy())
        return s


class Spec(object):
    continuous = False
    static = True
    mutates_dim = False

    def __init__(self, name, model, mps, eps, outs, pr, **kw):
        self.name, self.model, self.mps, self.eps, self.outs, self.pr = name, model, mps, eps, outs, pr
        self.__dict__.update(kw)

    def prior(self):
        return FnPrior(self.mps, self.model.n_modelparams)

    def arr(self, outcomes):
        """Outcome array in the dtype the model uses."""
        return np.array(outcomes, dtype=self.odtype) if getattr(self, "odtype", None) is not None else np.array(outcomes)

    def table(self, outcomes, mps, eps):
        """Reference likelihood tensor."""
        out = np.empty((len(outcomes), len(mps), len(eps)))
        for i, o in enumerate(outcomes):
            for j in range(len(mps)):
                for k in range(len(eps)):
                    out[i, j, k] = self.pr(o, mps[j], eps[k])
        return out


# ------------------------------------------------------------------- lab model
class LabModel(FiniteOutcomeModel):
    """Softmax model with optional impossible outcomes, varying outcome number,
    deterministic time step, box validity and sign canonicalisation."""
    def __init__(self, d, K, coef, vary=False, step=False, box=None, canon=False, Q=None, zero_region=False):
        self._d, self._K, self._coef, self._vary, self._step = d, K, coef, vary, step
        self._box, self._canon, self._zr = box, canon, zero_region
        super(LabModel, self).__init__()
        if Q is not None:
            self._Q = np.array(Q, dtype=float)
        self.log = None

    @property
    def n_modelparams(self): return self._d
    @property
    def expparams_dtype(self): return [('a', 'float'), ('k', 'int'), ('z', 'int')]
    @property
    def is_n_outcomes_constant(self): return not self._vary
    def n_outcomes(self, expparams):
        if self._vary:
            return self._K + expparams['k']
        return self._K
    def are_models_valid(self, modelparams):
        if self._box is None:
            return np.ones(modelparams.shape[0], dtype=bool)
        return np.all(np.abs(modelparams) <= self._box, axis=1)
    def canonicalize(self, modelparams):
        if not self._canon:
            return modelparams
        out = np.array(modelparams)
        out[:, 0] = np.abs(out[:, 0])
        return out
    def update_timestep(self, modelparams, expparams):
        out = super(LabModel, self).update_timestep(modelparams, expparams)
        if self._step:
            out = 0.9 * out + 0.05 * expparams['a'][None, None, :]
        return out
    def likelihood(self, outcomes, modelparams, expparams):
        super(LabModel, self).likelihood(outcomes, modelparams, expparams)
        outcomes = np.atleast_1d(outcomes)
        n_o, n_m, n_e = len(outcomes), len(modelparams), len(expparams)
        L = np.empty((n_o, n_m, n_e))
        for ie in range(n_e):
            e = expparams[ie]
            K = int(self._K + e['k']) if self._vary else self._K
            z = modelparams @ self._coef[:self._d, :K] * e['a'] + self._coef[self._d, :K]
            p = np.exp(z - z.max(axis=1, keepdims=True))
            if self._zr:
                p[np.arange(n_m), (np.floor(3 * modelparams[:, 0]).astype(int)) % K] = 0
            if e['z'] == 1:
                p[:, 0] = 0
            elif e['z'] == 2:
                p[modelparams[:, 0] < 0.5, 0] = 0
            if e['z']:
                p[:, 1] += 0.25    # keeps every row normalisable
            p /= p.sum(axis=1, keepdims=True)
            L[:, :, ie] = p[:, outcomes.astype(int)].T
        return L

    # plain-Python reference of the same law
    def ref(self, o, x, e):
        K = int(self._K + e['k']) if self._vary else self._K
        z = [sum(x[i] * self._coef[i, c] for i in range(self._d)) * e['a'] + self._coef[self._d, c] for c in range(K)]
        m = max(z)
        p = [math.exp(v - m) for v in z]
        if self._zr:
            p[int(math.floor(3 * x[0])) % K] = 0.0
        if e['z'] == 1 or (e['z'] == 2 and x[0] < 0.5):
            p[0] = 0.0
        if e['z']:
            p[1] += 0.25
        s = sum(p)
        return p[int(o)] / s


def lab(rng, vary=None, step=None, zero=None, box=None, canon=False, Q=None, d=None, K=None, z=(0,), spread=1.0):
    d = d or rng.randint(1, 5)
    K = K or rng.randint(2, 6)
    vary = bool(rng.randint(2)) if vary is None else vary
    step = (rng.rand() < .3) if step is None else step
    zero = (rng.rand() < .4) if zero is None else zero
    if Q is None and rng.rand() < .5:
        Q = rng.uniform(0.1, 3, d)
    m = LabModel(d, K, rng.normal(size=(d + 1, K + 4)) * spread, vary=vary, step=step, box=box, canon=canon, Q=Q, zero_region=zero)
    def mps(r, n): return r.uniform(-1.0, 1.5, size=(n, d))
    def eps(r, n):
        e = np.zeros((n,), dtype=m.expparams_dtype)
        e['a'] = r.uniform(-1.5, 2.0, n); e['k'] = r.randint(0, 4, n); e['z'] = r.choice(z, n)
        return e
    def outs(e): return list(range(int(K + e['k']) if vary else K))
    return Spec("lab(d=%d,K=%d,vary=%d,step=%d,zero=%d)" % (d, K, vary, step, zero), m, mps, eps, outs, m.ref,
                static=not step, varies=vary)


# --------------------------------------------------------------- built-in models
def two(e): return [0, 1]

def flip(p1):
    return lambda o, x, e: p1(x, e) if o == 1 else 1 - p1(x, e)


def edge(r, a, shape_hi=None):
    return a

def s_precession(rng):
    m = qi.SimplePrecessionModel()
    def mps(r, n): return r.uniform(0.01, 4.0, (n, 1))
    def eps(r, n):
        t = r.uniform(0, 12, n); t[r.rand(n) < .1] = 0
        return t.astype(m.expparams_dtype)
    return Spec("SimplePrecession", m, mps, eps, two, flip(lambda x, e: math.sin(float(e) * x[0] / 2) ** 2), diff=True)

def s_inversion(rng):
    m = qi.SimpleInversionModel()
    def mps(r, n): return r.uniform(0.01, 4.0, (n, 1))
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['t'] = r.uniform(0, 10, n); e['w_'] = r.uniform(-1, 4, n)
        return e
    return Spec("SimpleInversion", m, mps, eps, two, flip(lambda x, e: math.sin((x[0] - e['w_']) * e['t'] / 2) ** 2), diff=True)

def s_t2(rng):
    m = qi.UnknownT2Model()
    def mps(r, n): return np.column_stack([r.uniform(0, 4, n), r.uniform(0, 1.0, n)])
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['t'] = r.uniform(0, 8, n); return e
    def p1(x, e):
        v = math.exp(-e['t'] * x[1])
        return 1 - (v * math.cos(x[0] * e['t'] / 2) ** 2 + (1 - v) / 2)
    return Spec("UnknownT2", m, mps, eps, two, flip(p1))

def s_coin(rng):
    m = qi.CoinModel()
    def mps(r, n): return r.uniform(0, 1, (n, 1))
    def eps(r, n): return np.zeros(n, dtype=m.expparams_dtype)
    return Spec("Coin", m, mps, eps, two, flip(lambda x, e: 1 - x[0]), diff=True)

def s_noisy(rng):
    m = qi.NoisyCoinModel()
    def mps(r, n): return r.uniform(0, 1, (n, 1))
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['alpha'] = r.uniform(.5, 1, n); e['beta'] = r.uniform(0, .5, n); return e
    return Spec("NoisyCoin", m, mps, eps, two, flip(lambda x, e: 1 - (x[0] * e['alpha'] + (1 - x[0]) * e['beta'])))

def s_ndie(rng):
    k = rng.randint(2, 7)
    m = qi.NDieModel(k)
    def mps(r, n): return r.dirichlet(np.ones(k), n)
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['exp_num'] = r.randint(0, 50, n); return e
    return Spec("NDie(%d)" % k, m, mps, eps, lambda e: list(range(k)), lambda o, x, e: x[int(o)])

def s_rb(rng, il=None):
    il = bool(rng.randint(2)) if il is None else il
    m = qi.RandomizedBenchmarkingModel(interleaved=il)
    def mps(r, n):
        p = r.uniform(.4, 1, n); A = r.uniform(0.05, .5, n); B = r.uniform(0.02, .48, n)
        cols = [p, A, B]
        if il: cols = [r.uniform(.4, 1, n)] + cols
        return np.column_stack(cols)
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype); e['m'] = r.randint(0, 25, n)
        if il: e['reference'] = r.rand(n) < .5
        return e
    def p1(x, e):
        if il:
            p = x[1] if e['reference'] else x[0] * x[1]; A, B = x[2], x[3]
        else:
            p, A, B = x
        return A * p ** int(e['m']) + B
    return Spec("RB(interleaved=%s)" % il, m, mps, eps, two, flip(p1), diff=True)


def random_state(r, d):
    g = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    rho = g @ g.conj().T
    if r.rand() < .3:
        v = r.normal(size=d) + 1j * r.normal(size=d); rho = np.outer(v, v.conj())
    return rho / np.trace(rho).real


def basis_ops(basis):
    """Basis operators as plain matrices, from the basis' public array."""
    return np.array([np.asarray(b) for b in basis.data])


def s_tomo(rng, diffusive=False):
    from qinfer import tomography as tm
    which = rng.randint(3)
    basis = [lambda: tm.pauli_basis(1), lambda: tm.gell_mann_basis(2), lambda: tm.gell_mann_basis(3)][which]()
    d = basis.dim
    m = (tm.DiffusiveTomographyModel if diffusive else tm.TomographyModel)(basis)
    B = basis_ops(basis)
    def vec(M): return np.real(np.einsum('iab,ba->i', B, M))
    def mps(r, n):
        v = np.array([vec(random_state(r, d)) for _ in range(n)]).reshape(n, d * d)
        if diffusive: v = np.column_stack([v, r.uniform(0.001, .05, n)])
        return v
    def eps(r, n):
        e = np.zeros(n, dtype=m.expparams_dtype)
        for i in range(n):
            v = r.normal(size=d) + 1j * r.normal(size=d); v /= np.linalg.norm(v)
            E = np.outer(v, v.conj()) * r.uniform(.3, 1)
            e['meas'][i] = vec(E)
        if diffusive: e['t'] = r.uniform(0, 2, n)
        return e
    def p1(x, e):
        rho = np.einsum('i,iab->ab', np.asarray(x)[:d * d], B); E = np.einsum('i,iab->ab', e['meas'], B)
        return float(np.real(np.trace(E @ rho)))
    return Spec("%sTomography(d=%d)" % ("Diffusive" if diffusive else "", d), m, mps, eps, two, flip(p1), static=not diffusive)


BASE = [s_precession, s_inversion, s_t2, s_coin, s_noisy, s_ndie, s_rb, s_tomo]
TWO_OUTCOME = [s_precession, s_inversion, s_t2, s_coin, s_noisy, s_rb, s_tomo]


# ------------------------------------------------------------------- decorators
def _wrap_eps(base, model, scalar, nmax):
    def eps(r, n):
        b = base.eps(r, n)
        e = np.zeros(n, dtype=model.expparams_dtype)
        if scalar:
            e['x'] = b
        elif b.dtype.names:
            for f in b.dtype.names: e[f] = b[f]
        e['n_meas'] = r.randint(1, nmax + 1, n)
        return e
    def strip(e):
        if scalar: return e['x']
        return e          # base pr functions look fields up by name
    return eps, strip

def s_binomial(rng, base=None, nmax=6):
    b = base or TWO_OUTCOME[rng.randint(len(TWO_OUTCOME))](rng)
    m = qi.BinomialModel(b.model)
    scalar = isinstance(b.model.expparams_dtype, str)
    eps, strip = _wrap_eps(b, m, scalar, nmax)
    def pr(o, x, e):
        n = int(e['n_meas']); k = int(o); p = min(max(b.pr(1, x, strip(e)), 0.0), 1.0)
        if k < 0 or k > n: return 0.0
        return math.comb(n, k) * p ** k * (1 - p) ** (n - k)
    return Spec("Binomial(%s)" % b.name, m, b.mps, eps, lambda e: list(range(int(e['n_meas']) + 1)), pr,
                base=b, strip=strip, varies=True, static=b.static)

def compositions(total, parts):
    if parts == 1:
        yield (total,); return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest

def s_multinomial(rng, base=None, nmax=4):
    b = base or [s_ndie, s_coin, s_precession, s_rb][rng.randint(4)](rng)
    m = qi.MultinomialModel(b.model)
    scalar = isinstance(b.model.expparams_dtype, str)
    k = len(b.outs(None))
    eps, strip = _wrap_eps(b, m, scalar, nmax)
    odt = np.dtype([('k', int, (k,))])
    def pr(o, x, e):
        c = [int(v) for v in (o['k'] if hasattr(o, 'dtype') and o.dtype.names else o[0])]
        if sum(c) != int(e['n_meas']): return 0.0
        v = float(math.factorial(sum(c)))
        for i, ci in enumerate(c):
            v *= b.pr(i, x, strip(e)) ** ci / math.factorial(ci)
        return v
    return Spec("Multinomial(%s)" % b.name, m, b.mps, eps,
                lambda e: [(c,) for c in compositions(int(e['n_meas']), k)], pr, base=b, strip=strip, varies=True,
                odtype=odt, sides=k, static=b.static)

def s_mle(rng, base=None, power=None):
    b = base or BASE[rng.randint(len(BASE))](rng)
    g = power or rng.choice([1.0, 0.5, 2.0, 3.7])
    return Spec("MLE(%s,%s)" % (b.name, g), qi.MLEModel(b.model, g), b.mps, b.eps, b.outs,
                lambda o, x, e: max(b.pr(o, x, e), 0.0) ** g, base=b, power=g, static=b.static, unnormalised=g != 1.0,
                odtype=getattr(b, 'odtype', None))

def s_gauss(rng, base=None, sharp=False):
    b = base or [s_coin, s_noisy, s_precession, s_rb, s_t2][rng.randint(5)](rng)
    m = qi.GaussianHyperparameterizedModel(b.model)
    k = b.model.n_modelparams
    grid = np.linspace(-4, 4, 5) + float(rng.choice([0, .37, -.81]))
    def mps(r, n):
        if sharp:                                # narrow signals: densities far above one
            s2 = r.uniform(.001, .01, (n, 2))
            return np.column_stack([b.mps(r, n), grid[1:3] + r.normal(size=(n, 2)) * np.sqrt(s2) * .5, s2])
        return np.column_stack([b.mps(r, n), r.normal(size=(n, 2)) * 2, r.uniform(.1, 3, (n, 2))])
    def pr(o, x, e):
        tot = 0.0
        for u in (0, 1):
            mu, s2 = x[k + u], x[k + 2 + u]
            tot += b.pr(u, x[:k], e) * math.exp(-(float(o) - mu) ** 2 / (2 * s2)) / math.sqrt(2 * math.pi * s2)
        return tot
    return Spec("GaussianHyper(%s)" % b.name, m, mps, b.eps, lambda e: list(grid), pr,
                base=b, continuous=True, k=k)

def s_sharp(rng):
    return s_gauss(rng, sharp=True)

def s_innercoin(rng):
    s = s_coin(rng)
    s.mps = lambda r, n: r.uniform(.2, .8, (n, 1))      # a walk must not leave [0, 1]
    return s

def s_grw_fixed(rng, base=None):
    b = base or [s_innercoin, s_inversion, s_precession][rng.randint(3)](rng)
    n = b.model.n_modelparams
    m = qi.GaussianRandomWalkModel(b.model, fixed_covariance=rng.uniform(1e-6, 1e-4, n))
    return Spec("GaussianRandomWalk(%s)" % b.name, m, b.mps, b.eps, b.outs, b.pr, base=b, static=False)

def s_rw(rng, base=None):
    b = base or [s_innercoin, s_inversion, s_precession][rng.randint(3)](rng)
    n = b.model.n_modelparams
    m = qi.RandomWalkModel(b.model, qi.MultivariateNormalDistribution(np.zeros(n), np.eye(n) * 1e-6))
    return Spec("RandomWalk(%s)" % b.name, m, b.mps, b.eps, b.outs, b.pr, base=b, static=False)

DERIVED = [s_binomial, s_multinomial, s_mle, s_grw_fixed, s_rw]

def any_spec(rng, static=None, finite=True):
    pool = BASE + BASE + DERIVED + ([] if finite else [s_gauss])
    for _ in range(50):
        s = pool[rng.randint(len(pool))](rng)
        if static and not s.static: continue
        return s
    return s_coin(rng)


# ------------------------------------------------------------------ small helpers
def weights(rng, n, zero=True):
    """Hostile weight vectors: uniform, skewed, ties, exact zeros, single survivor."""
    kind = rng.randint(6)
    if kind == 0: w = np.ones(n)
    elif kind == 1: w = rng.dirichlet(np.ones(n))
    elif kind == 2: w = rng.dirichlet(np.full(n, .1)) + 1e-300
    elif kind == 3: w = rng.randint(1, 4, n).astype(float)
    elif kind == 4:
        w = rng.rand(n)
        if zero and n > 2: w[rng.permutation(n)[:n // 2]] = 0
    else:
        w = np.exp(-rng.uniform(0, 30, n))
    if w.sum() <= 0: w = np.ones(n)
    return w / w.sum()


def snapshot(u):
    """Bytes of everything an updater's observer can see."""
    return dict(weights=u.particle_weights.tobytes(), locations=u.particle_locations.tobytes(),
                wshape=u.particle_weights.shape, lshape=u.particle_locations.shape,
                data=repr(u.data_record), norms=repr([np.asarray(v).tolist() for v in u.normalization_record]),
                min_n_ess=float(u.min_n_ess), resample_count=u.resample_count, just=u.just_resampled,
                div=repr(u.resampling_divergences))


def sdiff(a, b):
    return [k for k in a if a[k] != b[k]]


class RecordingResampler(object):
    """Wraps a resampler (default: keep the cloud, reset weights by multinomial draw)
    and records what it was given."""
    def __init__(self, inner=None):
        self.inner, self.calls = inner, []

    def __call__(self, model, dist, *a, **k):
        self.calls.append((np.array(dist.particle_weights), np.array(dist.particle_locations)))
        if self.inner is not None:
            out = self.inner(model, dist, *a, **k)
        else:
            n = dist.n_particles
            w = np.asarray(dist.particle_weights)
            idx = np.random.choice(n, n, p=w / w.sum())
            out = qi.ParticleDistribution(particle_locations=np.array(dist.particle_locations)[idx],
                                          particle_weights=np.ones(n) / n)
        self.last = (np.array(out.particle_weights), np.array(out.particle_locations))
        return out


def wmean(w, x):
    return np.array([math.fsum(w[i] * x[i, k] for i in range(len(w))) for k in range(x.shape[1])])

def wcov(w, x):
    mu = wmean(w, x)
    d = x - mu
    return np.einsum('i,ia,ib->ab', w, d, d)
