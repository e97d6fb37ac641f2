"""C23: tomography priors and measurement heuristics are physical and as stated.

Monitor: every sample and every proposed measurement is rebuilt as a dense
matrix and judged by its eigenvalues, traces and partial traces; ensemble
moments by three-stage statistics.
"""
import math, itertools
import numpy as np
import qutip as qt
from scipy import stats
import qinfer as qi
from qinfer import tomography as tm
from .core import Section, Skip
from . import gen
from .c15 import chisq, mean_z
from .c21 import rand_basis_data, herm, S
from .c22 import vec, mat, unitary

RULE = ("an observation is one sample batch or proposed measurement checked on dense matrices, or one three-stage law test; distinct "
        "means a different (prior or heuristic, basis, rank, options) combination")
ASSUMPTIONS = ["an informative mean has full rank (the damping prior has no other members otherwise and refuses it)",
               "Ginibre ensembles are unitarily (or, for rebits, orthogonally) invariant induced measures, which fixes their mean and mean purity",
               "random choices of stabiliser states are judged by support and validity, not by a particular distribution"]


def bases(rng):
    c = [lambda: tm.pauli_basis(1), lambda: tm.gell_mann_basis(2), lambda: tm.gell_mann_basis(3), lambda: tm.pauli_basis(2), lambda: tm.gell_mann_basis(4),
         lambda: tm.tensor_product_basis(tm.gell_mann_basis(2), tm.gell_mann_basis(3)), lambda: tm.TomographyBasis(rand_basis_data(rng, 3), [3])]
    return c[rng.randint(len(c))]()


def check_states(t, X, D, d, n, rank=None, what=""):
    t.check(isinstance(X, np.ndarray) and X.shape == (n, d * d) and X.dtype.kind == 'f', "shape", lambda: "%s: %s, expected %s" % (what, X.shape, (n, d * d)))
    R = np.einsum('ni,iab->nab', X, D)
    w = np.linalg.eigvalsh(R)
    t.check(np.all(np.isfinite(X)) and w.min() >= -1e-9, "not-positive", lambda: "%s: smallest eigenvalue %r" % (what, w.min()))
    t.close(w.sum(axis=1), np.ones(n), "not-unit-trace", atol=1e-9, msg=what)
    if rank is not None:
        if rank < d: t.check(w[:, :d - rank].max() < 1e-9, "rank-too-high", lambda: "%s: rank %d stated, eigenvalues %s" % (what, rank, w[0]))
        t.check(w[:, d - rank].min() > 1e-14, "rank-too-low", lambda: "%s: rank %d stated, eigenvalues %s" % (what, rank, w[0]))
    return R


def ns(rng): return [None, 1, 2, int(rng.randint(3, 30))]


def draw(d, n): return d.sample() if n is None else d.sample(n)


def sec_states(t):
    rng = t.rng
    b = bases(rng); real = rng.rand() < .35
    arg = b
    if rng.rand() < .2: arg = int(rng.randint(2, 5)); b = tm.gell_mann_basis(arg)
    D = np.asarray(b.data); d = int(b.dim)
    rank = None if rng.rand() < .4 else int(rng.randint(1, d + 1))
    cls = tm.GinibreReditDistribution if real else tm.GinibreDistribution
    dist = cls(arg) if rank is None and rng.rand() < .5 else cls(arg, rank=rank)
    k = rank or d
    t.describe((cls.__name__, b.name, d, rank))
    t.check(dist.n_rvs == d * d and dist.dim == d, "n_rvs", "")
    for n in ns(rng):
        X = draw(dist, n); R = check_states(t, X, D, d, n or 1, k, cls.__name__)
        if real: t.check(np.abs(R.imag).max() < 1e-10, "rebit-not-real", "")
        if n and n > 1: t.check(len(np.unique(X.round(12), axis=0)) == n, "repeated-samples", "")
        t.seen((cls.__name__, b.name, d, rank, n if n in (None, 1, 2) else "many"))
    if not real:
        for bad in (d + 1, d + 5):
            try: tm.GinibreDistribution(arg, rank=bad)
            except ValueError: t.seen(("rank refused",))
            else: t.fail("bad-rank-accepted", "rank %d in dimension %d" % (bad, d))
    A = herm(rng, d, 0)
    if real: A = A.real
    def mean(N):
        R = np.einsum('ni,iab->nab', dist.sample(N), D)
        return mean_z(np.einsum('ab,nba->n', A, R).real, np.trace(A).real / d), "mean of %s rank %d in dimension %d" % (cls.__name__, k, d)
    t.stat("mean", mean, 500)
    if k * d > 1:
        pur = (d + k + 1.) / (d * k + 2) if real else (d + k) / (d * k + 1.)
        def purity(N):
            R = np.einsum('ni,iab->nab', dist.sample(N), D)
            p = np.einsum('nab,nba->n', R, R).real
            if k == 1: return (1. if abs(p - 1).max() < 1e-9 else 0.), "purity of pure states"
            return mean_z(p, pur), "mean purity of %s rank %d in dimension %d" % (cls.__name__, k, d)
        t.stat("mean-purity", purity, 500)
    if not real and k == 1:          # Haar: the overlap with a fixed state is Beta(1, d-1)
        v = unitary(rng, d)[:, 0]
        t.stat("haar-overlap", lambda N: (stats.kstest(np.einsum('a,nab,b->n', v.conj(), np.einsum('ni,iab->nab', dist.sample(N), D), v).real,
                                                       lambda x: 1 - (1 - np.clip(x, 0, 1)) ** (d - 1))[1], "Haar overlap"), 500)
    t.seen((cls.__name__, d, rank, "law"))


def ptr_out(R, d):
    """Trace over the output of a Choi state (input is the first factor)."""
    return np.einsum('niaja->nij', R.reshape(-1, d, d, d, d))


def sec_channels(t):
    rng = t.rng
    b = [tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3)][rng.randint(3)]
    d = int(b.dim); rank = None if rng.rand() < .4 else int(rng.randint(1, d * d + 1)); tp = rng.rand() < .75
    kw = {}
    if rank is not None: kw['rank'] = rank
    if not tp: kw['enforce_tp'] = False
    dist = tm.BCSZChoiDistribution(d if rng.rand() < .3 and b.name == 'gell_mann_basis' else b, **kw)
    D = np.asarray(dist.basis.data); k = rank or d * d
    t.describe((b.name, d, rank, tp))
    for n in ns(rng):
        X = draw(dist, n); R = check_states(t, X, D, d * d, n or 1, k, "BCSZ")
        P = ptr_out(R, d)
        if tp: t.close(P, np.repeat((np.eye(d) / d)[None].astype(complex), n or 1, axis=0), "not-trace-preserving", atol=1e-8)
        else: t.check(np.abs(P - np.eye(d) / d).max() > 1e-6, "trace-preserving-though-not-enforced", "")
        t.seen(("BCSZ", b.name, rank, tp, n if n in (None, 1, 2) else "many"))
    A = herm(rng, d * d, 0)
    t.stat("mean", lambda N: (mean_z(np.einsum('ab,nba->n', A, np.einsum('ni,iab->nab', dist.sample(N), D)).real, np.trace(A).real / d ** 2), "BCSZ mean"), 200)
    t.seen(("BCSZ", "law", d, rank, tp))


def sec_gadfli(t):
    rng = t.rng
    ch = rng.rand() < .25
    if ch:
        b0 = tm.pauli_basis(1); fid = tm.BCSZChoiDistribution(b0); b = fid.basis
        sup = qt.rand_super_bcsz(2)
        mean = sup if rng.rand() < .5 else qt.to_choi(sup).unit()
        M = qt.to_choi(sup).unit().full(); d = 4; kind = "channel"
    else:
        b = bases(rng); d = int(b.dim)
        fid = tm.GinibreDistribution(b) if rng.rand() < .7 else tm.GinibreDistribution(b, rank=1)
        kind = ["generic", "nearly pure", "nearly mixed", "maximally mixed", "degenerate"][rng.randint(5)]
        w = dict([("generic", rng.dirichlet(np.ones(d)) * .98 + .02 / d), ("nearly pure", (np.eye(d)[0] * .998 + .002 / d)), ("nearly mixed", np.ones(d) / d + 1e-3 * (np.eye(d)[0] - 1. / d)),
                  ("maximally mixed", np.ones(d) / d), ("degenerate", np.r_[.6, np.full(d - 1, .4 / (d - 1))])])[kind]
        U = unitary(rng, d) if rng.rand() < .7 else np.eye(d)
        M = (U * w) @ U.conj().T; M = (M + M.conj().T) / 2
        dims = [list(b.dims)] * 2 if rng.rand() < .6 else [[d], [d]]
        mean = qt.Qobj(M, dims=dims)
    D = np.asarray(b.data)
    t.describe((kind, b.name, d))
    dist = tm.GADFLIDistribution(fid, mean)
    for n in ns(rng):
        X = draw(dist, n); R = check_states(t, X, D, d, n or 1, None, "GADFLI " + kind)
        if ch: t.close(ptr_out(R, 2), np.repeat((np.eye(2) / 2)[None].astype(complex), n or 1, axis=0), "not-trace-preserving", atol=1e-8)
        t.seen(("GADFLI", kind, b.name, n if n in (None, 1, 2) else "many"))
    for A in (herm(rng, d, 0), M - np.trace(M) * np.eye(d) / d):
        if np.abs(A).max() < 1e-12: continue
        t.stat("mean", lambda N: (mean_z(np.einsum('ab,nba->n', A, np.einsum('ni,iab->nab', dist.sample(N), D)).real, np.trace(A @ M).real), "mean of GADFLI, %s" % kind), 500)
    # the amount of damping, from the position along the line between a fixed fiducial state and its image
    lam = np.linalg.eigvalsh(M)[0]
    if not ch and d * lam < 1 - 1e-9:
        F = qt.Qobj(np.eye(d) / d, dims=[list(b.dims)] * 2)
        class Fixed(tm.DensityOperatorDistribution):
            def _sample_dm(self): return F.copy()
        g = tm.GADFLIDistribution(Fixed(b), mean); beta = d * lam / (1 - d * lam)
        x0 = vec(D, np.eye(d) / d); dirn = vec(D, M) - x0
        def damp(N):
            # mean = I/d + eps_mean * (star - I/d), eps ~ Beta(1, beta), eps_mean = 1 / (1 + beta)
            e = (g.sample(N) - x0) @ dirn / (dirn @ dirn) / (1 + beta)
            return stats.kstest(e, lambda v: 1 - (1 - np.clip(v, 0, 1)) ** beta)[1], "damping strengths"
        if .3 < beta < 1e6: t.stat("damping", damp, 300)
    t.seen(("GADFLI", "law", kind, d))
    if not ch:
        neg = qt.Qobj(np.diag(np.r_[-.2, np.ones(d - 1) * 1.2 / (d - 1)]), dims=[list(b.dims)] * 2)
        try: tm.GADFLIDistribution(fid, neg)
        except ValueError: t.seen(("negative mean refused",))
        else: t.fail("negative-mean-accepted", "")


def sec_tensor(t):
    rng = t.rng
    fs, ds = [], []
    while len(fs) < 2 or (len(fs) < 3 and rng.rand() < .4):
        b = [tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3), tm.pauli_basis(2)][rng.randint(4)]
        if np.prod(ds + [b.dim]) > 12: break
        fs.append([lambda: tm.GinibreDistribution(b), lambda: tm.GinibreDistribution(b, rank=1), lambda: tm.GinibreReditDistribution(b)][rng.randint(3)]()); ds.append(int(b.dim))
    if len(fs) < 2: raise Skip
    dist = tm.TensorProductDistribution(fs); d = int(np.prod(ds)); D = np.asarray(dist.basis.data)
    t.describe(ds)
    t.check(dist.n_rvs == d * d, "n_rvs", lambda: str(dist.n_rvs))
    rank = int(np.prod([f._rank or e for f, e in zip(fs, ds)])) if all(hasattr(f, "_rank") for f in fs) else None
    for n in ns(rng):
        R = check_states(t, draw(dist, n), D, d, n or 1, rank, "tensor product")
        for r in R:
            q = qt.Qobj(r, dims=[ds, ds]); parts = [q.ptrace(i) for i in range(len(ds))]
            t.close(qt.tensor(*parts).full(), r, "not-a-product", atol=1e-9)
        t.seen(("tensor", tuple(ds), n if n in (None, 1, 2) else "many"))
    def indep(N):
        R = np.einsum('ni,iab->nab', dist.sample(N), D)
        a, b = [], []
        for r in R:
            q = qt.Qobj(r, dims=[ds, ds]); a.append(q.ptrace(0).full()[0, 0].real); b.append(q.ptrace(1).full()[0, 0].real)
        return stats.spearmanr(a, b)[1], "factors of a tensor product prior"
    t.stat("factors-dependent", indep, 150)


# ------------------------------------------------------------------ heuristics
def rig(rng, dims_ok=None, channel=False):
    if channel:
        b = [tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3), tm.pauli_basis(2)][rng.choice(4, p=[.25, .25, .2, .3])]
        prior = tm.BCSZChoiDistribution(b); base = tm.TomographyModel(prior.basis); diff = False
    else:
        b = [tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3), tm.pauli_basis(2), tm.gell_mann_basis(4), tm.gell_mann_basis(5), tm.pauli_basis(3)][rng.randint(7)]
        diff = rng.rand() < .3
        prior = tm.GinibreDistribution(b)
        if diff: prior = qi.ProductDistribution(prior, qi.UniformDistribution([.01, .2]))
        base = (tm.DiffusiveTomographyModel if diff else tm.TomographyModel)(b)
    binom = rng.rand() < .5
    m = qi.BinomialModel(base) if binom else base
    up = qi.SMCUpdater(m, 12, prior)
    others = {}
    if binom: others['n_meas'] = int(rng.randint(1, 50))
    if diff: others['t'] = float(rng.rand())
    if rng.rand() < .2: others = {}
    return b, up, m, others


def check_record(t, e, m, others):
    t.check(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == np.dtype(m.expparams_dtype), "record", lambda: repr(e))
    for f in e.dtype.names:
        if f != 'meas': t.check(e[f][0] == others.get(f, 0), "other-field", lambda: "%s is %r, expected %r" % (f, e[f][0], others.get(f, 0)))


def pauli_table(d):
    n = int(round(math.log2(d))); el = [np.array([[1.]])]
    for _ in range(n): el = [np.kron(a, s) for a in el for s in S]
    return np.array(el[1:])


def sec_pauli(t):
    rng = t.rng
    b, up, m, others = rig(rng)
    d = int(b.dim); D = np.asarray(b.data)
    t.describe((b.name, d, others))
    if d not in (2, 4, 8):
        try: tm.RandomPauliHeuristic(up)
        except ValueError: t.seen(("refused", d)); return
        t.fail("non-qubit-accepted", "dimension %d" % d)
    kw = dict(other_fields=others) if others or rng.rand() < .5 else {}
    if rng.rand() < .3: kw['basis'] = b
    h = tm.RandomPauliHeuristic(up, **kw); T = pauli_table(d)
    def one():
        e = h(); check_record(t, e, m, others)
        E = mat(D, e['meas'][0])
        P = 2 * E - np.eye(d)
        i = int(np.argmax([np.trace(P @ p).real for p in T]))
        t.close(P, T[i].astype(complex), "not-a-Pauli-projector", atol=1e-9)
        return i
    for _ in range(3): one(); t.seen((b.name, d, sorted(kw), sorted(others)))
    if d == 8: return
    t.stat("pauli-law", lambda N: (chisq(np.bincount([one() for _ in range(N)], minlength=len(T)), np.ones(len(T)) / len(T)), "Pauli choice"), 300, growth=3)


def sec_stabilizer(t):
    rng = t.rng
    b, up, m, others = rig(rng)
    d = int(b.dim); D = np.asarray(b.data)
    if d == 8: raise Skip
    t.describe((b.name, d, others))
    kw = dict(other_fields=others) if others or rng.rand() < .5 else {}
    h = tm.RandomStabilizerStateHeuristic(up, **kw)
    w = np.exp(2j * np.pi / d); X = np.roll(np.eye(d), 1, axis=1); Z = np.diag(w ** np.arange(d))
    W = {(i, j): np.linalg.matrix_power(X, i) @ np.linalg.matrix_power(Z, j) for i in range(d) for j in range(d) if i or j}
    prime = d in (2, 3, 5)
    bases_hit = set(); states = set()
    for _ in range(30 * d if prime else 12):
        e = h(); check_record(t, e, m, others)
        E = mat(D, e['meas'][0]); ev, v = np.linalg.eigh(E)
        t.close(ev, np.eye(d)[-1], "not-a-rank-1-projector", atol=1e-8)
        psi = v[:, -1]
        st = {k for k, U in W.items() if abs(abs(psi.conj() @ U @ psi) - 1) < 1e-7}
        t.check(len(st) >= (d - 1 if prime else 1), "not-a-stabilizer-state", lambda: "stabilised by %s" % sorted(st))
        if prime: bases_hit.add(min(st)); states.add((min(st), tuple(np.round([np.angle(psi.conj() @ W[k] @ psi) % (2 * np.pi - 1e-6) for k in sorted(st)], 3))))
        t.seen((b.name, d, "stabilizer", min(st), len(st)))
    if prime: t.check(len(bases_hit) == d + 1, "stabilizer-bases-missing", lambda: "only %s of %d bases seen in %d draws" % (len(bases_hit), d + 1, 30 * d))
    if prime: t.check(len(states) > d + 1, "stabilizer-states-missing", "one state per basis in %d draws" % (30 * d))


def sec_product(t):
    rng = t.rng
    b, up, m, others = rig(rng, channel=True)
    d = int(b.dim); D = np.asarray(m.base_model.basis.data)
    cls = [tm.RandomStabilizerStateHeuristic] + ([tm.RandomPauliHeuristic] if d in (2, 4) else [])
    pc, mc = cls[rng.randint(len(cls))], cls[rng.randint(len(cls))]
    kw = dict(other_fields=others) if others or rng.rand() < .5 else {}
    h = tm.ProductHeuristic(up, b, pc, mc, **kw)
    t.describe((b.name, d, pc.__name__, mc.__name__, others))
    for _ in range(4):
        e = h(); check_record(t, e, m, others)
        E = mat(D, e['meas'][0]) / d                      # prep (trace 1) times effect
        T4 = E.reshape(d, d, d, d)                        # i a j b : <i a| E |j b>
        prep = np.einsum('iaja->ij', T4); tr = np.trace(prep).real; meas = np.einsum('iaib->ab', T4)
        t.close(E, np.kron(prep, meas) / tr, "not-a-product", atol=1e-8)
        prep = prep / tr; ev = np.linalg.eigvalsh(prep); em = np.linalg.eigvalsh(meas)
        t.check(ev.min() > -1e-9 and em.min() > -1e-9 and em.max() < 1 + 1e-9, "not-a-state-and-effect", lambda: "preparation %s, effect %s" % (ev, em))
        for M, c, state in ((prep, pc, True), (meas, mc, False)):
            r = d // 2 if c is tm.RandomPauliHeuristic else 1      # stabiliser states are of rank one
            if state: M = M * r
            t.close(np.linalg.eigvalsh(M), np.arange(d) >= d - r, "wrong-kind", atol=1e-6, msg=c.__name__)
            if c is tm.RandomPauliHeuristic:
                P = 2 * M - np.eye(d); t.check(min(np.abs(P - s).max() for s in pauli_table(d)) < 1e-7, "wrong-kind", lambda: "not a Pauli projector: off by %r" % min(np.abs(P - s).max() for s in pauli_table(d)))
        raw = up.particle_locations @ e['meas'][0]
        t.check(raw.min() > -1e-8 and raw.max() < 1 + 1e-8, "probability-out-of-range", lambda: "%r..%r" % (raw.min(), raw.max()))
        t.seen((b.name, d, pc.__name__, mc.__name__, sorted(others)))


def sec_bestofk(t):
    rng = t.rng
    ch = rng.rand() < .2
    b, up, m, others = rig(rng, channel=ch)
    mb = m.base_model.basis; D = np.asarray(mb.data); n = D.shape[0]; dd = int(mb.dim)
    X = np.asarray(up.particle_locations); wts = rng.dirichlet(np.ones(len(X)) * .5); up.particle_weights[:] = wts
    given = []
    def base():
        e = np.zeros(1, dtype=m.expparams_dtype)
        U = unitary(rng, dd); w = rng.rand(dd)
        e['meas'][0] = vec(D, (U * w) @ U.conj().T)
        for f in e.dtype.names:
            if f != 'meas': e[f] = rng.randint(1, 9)
        given.append(e.copy()); return e
    k = int(rng.choice([1, 2, 3, 6])); kw = {}
    if k != 3 or rng.rand() < .5: kw['k'] = k
    if others or rng.rand() < .5: kw['other_fields'] = others
    h = tm.BestOfKMetaheuristic(up, base, **kw)
    t.describe((b.name, k, others))
    for _ in range(3):
        del given[:]
        e = h()
        t.check(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == np.dtype(m.expparams_dtype), "record", lambda: repr(e))
        t.check(len(given) == k, "wrong-number-of-candidates", "%d drawn, k=%d" % (len(given), k))
        mu = wts @ X[:, :n]; C = (wts[:, None] * (X[:, :n] - mu)).T @ (X[:, :n] - mu)
        v = [float(g['meas'][0] @ C @ g['meas'][0]) for g in given]
        best = [i for i in range(k) if v[i] >= max(v) * (1 - 1e-9)]
        t.check(any(np.array_equal(e['meas'], given[i]['meas']) for i in best), "not-the-best", lambda: "expected candidate %s of %s" % (best, v))
        g = given[best[0]]
        for f in e.dtype.names:
            if f != 'meas' and len(best) == 1: t.check(e[f][0] == others.get(f, g[f][0]), "other-field", lambda: "%s is %r" % (f, e[f][0]))
        t.seen(("best", b.name, k, sorted(others), n))


SECTIONS = [
    Section("states", sec_states, 60),
    Section("channels", sec_channels, 16),
    Section("gadfli", sec_gadfli, 40),
    Section("tensor", sec_tensor, 24),
    Section("pauli", sec_pauli, 30),
    Section("stabilizer", sec_stabilizer, 30),
    Section("product", sec_product, 40),
    Section("bestofk", sec_bestofk, 60),
]
