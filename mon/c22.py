"""C22: tomography follows the Born rule and keeps particles physical.

Monitor: dense density matrices are rebuilt from every parameter vector the
model, the updater or the priors produce; probabilities, spectra and traces are
compared with their definitions on those matrices.
"""
import itertools
import math
import numpy as np
import qutip as qt
import qinfer as qi
from qinfer import tomography as tm
from .core import Section, Skip
from . import gen
from .c21 import rand_basis_data, herm

RULE = ("an observation is one likelihood array, canonicalised batch or inference step checked on dense matrices; distinct means a "
        "different (basis, model variant, spectrum class, batch-size class)")
ASSUMPTIONS = ["parameter vectors with no positive eigenvalue at all have no positive part to renormalise and are not generated",
               "physical states are recognised up to rounding (1e-9)"]


def basis(rng, big=True):
    c = [lambda: tm.pauli_basis(1), lambda: tm.gell_mann_basis(2), lambda: tm.gell_mann_basis(3), lambda: tm.pauli_basis(2),
         lambda: tm.tensor_product_basis(tm.gell_mann_basis(2), tm.gell_mann_basis(3)),
         lambda: tm.TomographyBasis(rand_basis_data(rng, 3), [3]), lambda: tm.TomographyBasis(rand_basis_data(rng, 4), [2, 2]),
         lambda: tm.gell_mann_basis(5)]
    if not big: c = c[:4]
    b = c[rng.randint(len(c))]()
    return b, np.asarray(b.data), int(b.dim)


def vec(D, M): return np.real(np.einsum('iab,ba->i', D, M))
def mat(D, x): return np.einsum('i,iab->ab', x, D)


def unitary(rng, d):
    return np.linalg.qr(rng.randn(d, d) + 1j * rng.randn(d, d))[0]


KINDS = ["mixed", "pure", "maximal", "degenerate", "rankdef", "unphysical", "unphysical-degenerate", "barely-negative", "unnormalised", "pauli-like", "permuted"]


def spectrum(rng, d, kind):
    if kind == "mixed": return rng.dirichlet(np.ones(d))
    if kind == "pure": return np.eye(d)[0]
    if kind == "maximal": return np.ones(d) / d
    if kind == "degenerate":
        w = rng.randint(1, 3, d).astype(float); return w / w.sum()
    if kind == "rankdef":
        w = rng.dirichlet(np.ones(d)); w[0] = 0; return w / w.sum()
    if kind == "unphysical":
        w = rng.dirichlet(np.ones(d)); k = rng.randint(1, d); w[:k] = -rng.rand(k) * .5; return w / (w.sum() if w.sum() > .2 else 1)
    if kind == "unphysical-degenerate":
        k = rng.randint(1, d); w = np.r_[np.full(k, -rng.uniform(.01, .4)), np.zeros(d - k)]; w[k:] = (1 - w.sum()) / (d - k); return w
    if kind == "barely-negative":
        w = rng.dirichlet(np.ones(d)); w[0] = -10. ** rng.uniform(-14, -3); return w / w.sum()
    if kind == "unnormalised": return rng.dirichlet(np.ones(d)) * rng.uniform(.1, 3)
    return rng.dirichlet(np.ones(d))


def particle(rng, D, d, kind):
    if kind == "pauli-like":         # exactly repeated eigenvalues in a simple basis: one traceless coordinate, overgrown
        x = np.zeros(d * d); x[0] = 1 / np.sqrt(d); x[rng.randint(1, d * d)] = rng.choice([-1, 1]) * rng.uniform(.2, 2); return x
    if kind == "permuted":           # integer matrix with exact degeneracies
        P = np.eye(d)[rng.permutation(d)]; H = P + P.T; H = H / max(np.trace(H), 1) * rng.uniform(.5, 2); H = H - np.eye(d) * (np.trace(H) - 1) / d
        return vec(D, H.astype(complex))
    U = unitary(rng, d) if rng.rand() < .8 else np.eye(d)
    return vec(D, (U * spectrum(rng, d, kind)) @ U.conj().T)


def physical(t, D, X, mech, trace=True, tol=1e-9):
    R = np.einsum('ni,iab->nab', X, D)
    w = np.linalg.eigvalsh(R)
    t.check(w.min() >= -tol, mech + ":negative-eigenvalue", lambda: "smallest eigenvalue %r" % w.min())
    tr = w.sum(axis=1)
    if trace: t.check(np.max(np.abs(tr - 1)) < 1e-9, mech + ":trace", lambda: "traces in [%r, %r]" % (tr.min(), tr.max()))


def want_canon(D, d, x, sub):
    R = mat(D, x); w, v = np.linalg.eigh((R + R.conj().T) / 2)
    w = np.where(w < 0, 0, w)
    P = (v * w) @ v.conj().T
    if not sub: P = P / np.trace(P).real
    return vec(D, P)


def sec_canon(t):
    rng = t.rng
    b, D, d = basis(rng)
    sub = rng.rand() < .3; diff = rng.rand() < .3
    kw = dict(allow_subnormalized=sub) if sub or rng.rand() < .5 else {}
    m = (tm.DiffusiveTomographyModel if diff else tm.TomographyModel)(b, **kw)
    n = int(rng.choice([1, 2, 10, 60]))
    kinds = [KINDS[rng.randint(len(KINDS))] for _ in range(n)]
    if rng.rand() < .3: kinds = [kinds[0]] * n
    X = np.array([particle(rng, D, d, k) for k in kinds])
    keep_ok = np.array([np.linalg.eigvalsh(mat(D, x)).max() > 1e-3 for x in X])
    X = X[keep_ok]; kinds = [k for k, o in zip(kinds, keep_ok) if o]
    if not len(X): raise Skip
    Y = np.c_[X, rng.uniform(.01, 1, len(X)) * rng.choice([1, 1, -1, 0, 1e-6, 50], len(X))] if diff else X.copy()
    if rng.rand() < .3: Y = np.asfortranarray(Y)
    Y0 = Y.copy()
    t.describe((b.name, d, sub, diff, kinds[:5]))
    Z = m.canonicalize(Y)
    t.check(np.array_equal(Y, Y0), "argument-modified", "canonicalize changed its argument")
    t.check(isinstance(Z, np.ndarray) and Z.shape == Y0.shape and Z.dtype.kind == 'f', "shape", lambda: "%s" % (Z.shape,))
    if diff: t.check(np.array_equal(Z[:, -1], Y0[:, -1]), "diffusion-rate-changed", "")
    Zs = Z[:, :d * d]
    physical(t, D, Zs, "canonical", trace=not sub)
    for x, z, k in zip(X, Zs, kinds):
        t.close(z, want_canon(D, d, x, sub), "positive-part", rtol=1e-7, atol=1e-8, msg=k)
        if k in ("mixed", "pure", "maximal", "degenerate", "rankdef"): t.close(z, x, "physical-state-changed", rtol=1e-9, atol=1e-10, msg=k)
        t.seen((b.name, d, sub, diff, k))
    Z2 = m.canonicalize(Z)
    t.close(Z2, Z, "not-idempotent", rtol=1e-9, atol=1e-9)
    # each particle on its own gives the same
    i = int(rng.randint(len(Y0)))
    t.close(m.canonicalize(Y0[i:i + 1])[0], Z[i], "depends-on-batch", rtol=1e-12, atol=1e-13)
    ok = (Y0[:, -1] > 0) if diff else np.ones(len(Z), bool)          # a diffusion rate must be positive, and is never rewritten
    t.check(np.array_equal(m.are_models_valid(Z), ok), "canonical-invalid", "")


def effect(rng, d):
    k = rng.randint(6)
    U = unitary(rng, d)
    if k == 0: w = np.eye(d)[0]
    elif k == 1: w = rng.rand(d)
    elif k == 2: w = np.ones(d)
    elif k == 3: w = np.zeros(d)
    elif k == 4: w = (rng.rand(d) < .5).astype(float)
    else: w = rng.uniform(-.5, 2, d)        # not an effect for every state: the probability is clipped
    return (U * w) @ U.conj().T, k


def sec_born(t):
    rng = t.rng
    b, D, d = basis(rng)
    diff = rng.rand() < .3
    m = (tm.DiffusiveTomographyModel if diff else tm.TomographyModel)(b)
    n, ne = int(rng.choice([1, 3, 20])), int(rng.choice([1, 2, 5]))
    X = np.array([particle(rng, D, d, KINDS[rng.randint(len(KINDS))]) for _ in range(n)])
    mp = np.c_[X, rng.uniform(.01, 1, n)] if diff else X
    e = np.zeros(ne, dtype=m.expparams_dtype); Es = []; ks = []
    for i in range(ne):
        E, k = effect(rng, d); Es.append(E); ks.append(k)
        e['meas'][i] = b.state_to_modelparams(qt.Qobj(E, dims=[list(b.dims), list(b.dims)]))
    if diff: e['t'] = rng.rand(ne)
    if rng.rand() < .4:                  # an event that is almost impossible, or almost certain
        U = unitary(rng, d); a = 10. ** rng.uniform(-4.8, -3.2); f = math.sqrt(1 - a * a) * U[:, 0] + a * U[:, 1]
        E = np.outer(f, f.conj()); k = 98
        if rng.rand() < .4: E = np.eye(d) - E; k = 99
        i, j = rng.randint(n), rng.randint(ne); X[i] = vec(D, np.outer(U[:, 1], U[:, 1].conj())); Es[j] = E; ks[j] = k
        e['meas'][j] = vec(D, E)
        if diff: mp[i, :-1] = X[i]
    outs = np.array([[0, 1], [1, 0], [1], [0], [0, 0, 1]][rng.randint(5)])
    L = m.likelihood(outs, mp, e)
    want = np.array([[[np.trace(E @ mat(D, x)).real for E in Es] for x in X]])
    want = np.clip(want, 0, 1); want = np.concatenate([want if o == 1 else 1 - want for o in outs])
    t.describe((b.name, d, diff, n, ne, ks))
    t.check(L.shape == (len(outs), n, ne), "shape", lambda: str(L.shape))
    t.close(L, want, "born-rule", rtol=1e-8, atol=1e-11)
    t.check(L.min() >= 0 and L.max() <= 1, "not-a-probability", lambda: "%r %r" % (L.min(), L.max()))
    t.check(m.n_modelparams == d * d + diff and len(m.modelparam_names) == m.n_modelparams, "names", "")
    t.check(m.dim == d and m.basis is b, "dim", "")
    o = m.simulate_experiment(mp, e)
    t.check(set(np.unique(o)) <= {0, 1}, "outcomes", "")
    pr = want[list(outs).index(1)] if 1 in outs else 1 - want[0]
    o = o.reshape(n, ne) if n * ne == o.size else None
    if o is not None: t.check(np.all(o[pr <= 1e-9] == 0) and np.all(o[pr >= 1 - 1e-9] == 1), "impossible-outcome-simulated", "")
    t.seen((b.name, d, diff, tuple(sorted(set(ks))), n == 1))


def sec_inference(t):
    rng = t.rng
    b, D, d = basis(rng, big=False)
    diff = rng.rand() < .35; binom = rng.rand() < .4
    base = (tm.DiffusiveTomographyModel if diff else tm.TomographyModel)(b)
    m = qi.BinomialModel(base) if binom else base
    prior = tm.GinibreDistribution(b)
    bad_prior = rng.rand() < .4          # a prior with unphysical samples is canonicalised on the way in
    if bad_prior:
        s0 = prior
        class Over(qi.Distribution):
            n_rvs = d * d
            def sample(self, n=1):
                x = s0.sample(n); x[:, 1:] *= 1.8; return x
        prior = Over()
    if diff: prior = qi.ProductDistribution(prior, qi.UniformDistribution([.01, .3]))
    n = int(rng.choice([12, 60, 150]))
    canon = rng.rand() < .85
    res = [None, qi.LiuWestResampler(a=.9), qi.LiuWestResampler(a=.5, postselect=False)][rng.randint(3)]
    if not canon and res is not None: res = None
    up = qi.SMCUpdater(m, n, prior, resampler=res, resample_thresh=float(rng.choice([.5, .9, 1.])), **({} if canon else dict(canonicalize=False)))
    rho = mat(D, vec(D, gen.random_state(rng, d)))
    t.describe((b.name, d, diff, binom, n, canon, bad_prior))
    def look(what):
        if not canon: return
        X = up.particle_locations[:, :d * d]
        physical(t, D, X, "particles after " + what)
        physical(t, D, np.asarray(up.est_mean())[None, :d * d], "mean after " + what)
        t.seen((b.name, diff, binom, bad_prior, what, min(up.resample_count, 3)))
    look("reset")
    for step in range(int(rng.randint(4, 14))):
        e = np.zeros(1, dtype=m.expparams_dtype)
        E = effect(rng, d)[0] if False else None
        v = rng.normal(size=d) + 1j * rng.normal(size=d); v /= np.linalg.norm(v); E = np.outer(v, v.conj())
        e['meas'][0] = vec(D, E)
        if diff: e['t'] = rng.uniform(0, 1)
        p = float(np.clip(np.trace(E @ rho).real, 0.02, .98))
        N = 1
        if binom: N = int(rng.randint(1, 30)); e['n_meas'] = N
        try: up.update(int(rng.binomial(N, p)), e)
        except RuntimeError: break
        look("update" if not diff else "diffusion")
        if rng.rand() < .1: up.resample(); look("resample")
        if canon and rng.rand() < .1:
            i = int(rng.randint(d * d)); up.reset(only_params=slice(i, i + 1)); look("partial reset")
        if rng.rand() < .05: up.reset(); look("reset")
    if not canon: t.seen(("no canonical form", b.name, diff))


SECTIONS = [
    Section("canon", sec_canon, 200),
    Section("born", sec_born, 200),
    Section("inference", sec_inference, 60),
]
