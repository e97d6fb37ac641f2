"""C21: tomography bases are orthonormal and conversions are lossless.

Monitor: every constructed basis is checked as a set of dense matrices, and
every conversion is compared with sums over those matrices written out here.
"""
import itertools, pickle
import numpy as np
import qutip as qt
import qinfer as qi
from qinfer import tomography as tm
from .core import Section, Skip

RULE = ("an observation is one basis checked in full or one conversion compared with its definition; distinct means a different "
        "(construction, dimensions, kind of operator or option)")
ASSUMPTIONS = ["user-built bases are Hermitian and orthonormal with the normalised identity first, as the class requires",
               "superoperators use QuTiP's column-stacking convention"]

S = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def rand_basis_data(rng, d):
    """Random rotation of the traceless part of an elementary orthonormal Hermitian set."""
    ops = [np.eye(d) / np.sqrt(d)]
    for i in range(d):
        for j in range(i):
            a = np.zeros((d, d), complex); a[i, j] = a[j, i] = 1 / np.sqrt(2); ops.append(a)
            b = np.zeros((d, d), complex); b[i, j] = 1j / np.sqrt(2); b[j, i] = -1j / np.sqrt(2); ops.append(b)
    q, _ = np.linalg.qr(np.c_[np.ones(d), rng.randn(d, d - 1)])
    for k in range(1, d): ops.append(np.diag(q[:, k]).astype(complex))
    ops = np.array(ops, complex)
    R = np.linalg.qr(rng.randn(d * d - 1, d * d - 1))[0] if d > 1 else np.zeros((0, 0))
    ops[1:] = np.einsum('ij,jab->iab', R, ops[1:])
    return ops


def herm(rng, d, kind=None):
    kind = rng.randint(5) if kind is None else kind
    G = rng.randn(d, d) + 1j * rng.randn(d, d)
    if kind == 0: H = G + G.conj().T                             # any Hermitian operator
    elif kind == 1: v = G[:, :1]; H = v @ v.conj().T; H /= np.trace(H).real   # pure state
    elif kind == 2: H = G @ G.conj().T; H /= np.trace(H).real    # mixed state
    elif kind == 3: H = np.eye(d) / d                            # maximally mixed
    else: H = np.zeros((d, d)); H[rng.randint(d), 0] = 1; H = H + H.T      # sparse
    return (H + H.conj().T) / 2


def make(rng, small=False):
    """(name, basis, expected elements or None, expected dims)"""
    k = rng.randint(6)
    if k == 0:
        d = int(rng.randint(2, 7 if not small else 4)) if small or rng.rand() < .85 else int(rng.randint(7, 13))
        if not small and rng.rand() < .05: d = 1
        return "gell_mann", tm.gell_mann_basis(d), None, [d]
    if k == 1:
        n = int(rng.randint(1, 4 if not small else 3))
        el = [np.array(1.)] 
        for _ in range(n): el = [np.kron(a, b) for a in el for b in S]
        b = tm.pauli_basis() if n == 1 and rng.rand() < .5 else tm.pauli_basis(n)
        return "pauli", b, np.array(el) / np.sqrt(2.) ** n, [2] * n
    if k in (2, 3):
        parts = []
        while not parts or (len(parts) < 3 and rng.rand() < .6):
            p = [lambda: tm.gell_mann_basis(2), lambda: tm.gell_mann_basis(3), lambda: tm.pauli_basis(1),
                 lambda: tm.TomographyBasis(rand_basis_data(rng, 2), [2]), lambda: tm.pauli_basis(2)][rng.randint(5)]()
            if np.prod([q.dim for q in parts] + [p.dim]) <= (12 if not small else 6): parts.append(p)
            elif parts: break
        el = []
        for combo in itertools.product(*[range(p.dim ** 2) for p in parts]):
            m = np.array([[1.]])
            for p, i in zip(parts, combo): m = np.kron(m, np.asarray(p.data[i]))
            el.append(m)
        b = tm.tensor_product_basis(*parts)
        for i in rng.randint(0, len(el), size=5):
            c = np.unravel_index(i, [p.dim ** 2 for p in parts])
            want = r"\otimes".join(p.labels[j] for p, j in zip(parts, c))
            assert len(b.labels) == len(el), "number of labels"
            assert b.labels[i] == want, "label %r, expected %r" % (b.labels[i], want)
        return "tensor%d" % len(parts), b, np.array(el), sum([list(p.dims) for p in parts], [])
    d, dims = [(2, [2]), (3, [3]), (4, [2, 2]), (4, [4]), (6, [2, 3])][rng.randint(5 if not small else 4)]
    data = rand_basis_data(rng, d)
    form = rng.randint(3)
    if form == 0: return "user", tm.TomographyBasis(data.copy(), dims), data, dims
    if form == 1: return "user/label", tm.TomographyBasis(data.copy(), dims, r"\beta", name="mine"), data, dims
    return "user/labels", tm.TomographyBasis(data.copy(), dims, labels=["L%d" % i for i in range(d * d)]), data, dims


def sec_basis(t):
    rng = t.rng
    name, b, el, dims = make(rng)
    D = np.asarray(b.data); d = int(np.prod(dims))
    t.describe((name, dims))
    t.check(b.dim == d and list(b.dims) == dims and len(b) == d * d, "dimensions", lambda: "dim %r dims %r len %r" % (b.dim, b.dims, len(b)))
    t.check(D.shape == (d * d, d, d), "data-shape", lambda: str(D.shape))
    t.close(D, D.conj().transpose(0, 2, 1), "not-Hermitian", atol=1e-12)
    F = D.reshape(d * d, -1)
    t.close(F.conj() @ F.T, np.eye(d * d, dtype=complex), "not-orthonormal", atol=1e-10)
    t.close(D[0], np.eye(d, dtype=complex) / np.sqrt(d), "first-not-identity", atol=1e-12)
    if d > 1: t.check(np.max(np.abs(np.trace(D[1:], axis1=1, axis2=2))) < 1e-10, "traceful-element", "")
    if el is not None: t.close(D, np.asarray(el, complex), "wrong-element", atol=1e-12)
    t.close(np.asarray(b.flat()), F, "flat", atol=0)
    t.check(len(b.labels) == d * d and all(isinstance(l, str) for l in b.labels) and len(set(b.labels)) == d * d, "labels", lambda: repr(b.labels[:4]))
    if name == "pauli":
        for i, l in enumerate(b.labels):
            code = [dict(zip(u"𝟙xyz", range(4)))[p[-1]] for p in l.split(r"\otimes")]
            m = np.array([[1.]])
            for c in code: m = np.kron(m, S[c] / np.sqrt(2))
            t.close(D[i], m.astype(complex), "label-of-other-element", atol=1e-12)
    if name == "gell_mann":      # d diagonal elements, the others with one symmetric or antisymmetric pair
        diag = [i for i in range(d * d) if np.allclose(D[i], np.diag(np.diag(D[i])))]
        t.check(len(diag) == d, "not-gell-mann", "%d diagonal elements" % len(diag))
        pairs = []
        for i in range(d * d):
            if i in diag: continue
            nz = np.argwhere(np.abs(D[i]) > 1e-12)
            t.check(len(nz) == 2, "not-gell-mann", "element %d has %d entries" % (i, len(nz)))
            pairs.append((tuple(sorted(map(tuple, nz))), bool(np.abs(D[i].imag).max() > 1e-12)))
        t.check(len(set(pairs)) == len(pairs), "not-gell-mann", "repeated pair")
    # elements as QuTiP objects
    i = int(rng.randint(d * d)); idx = [int(v) for v in rng.randint(0, d * d, size=3)]
    q = b[i]
    t.check(q.dims == [dims, dims], "element-dims", lambda: str(q.dims)); t.close(q.full(), D[i].astype(complex), "element", atol=1e-12)
    for q, j in zip(b[idx], idx): t.close(q.full(), D[j].astype(complex), "element", atol=1e-12)
    if d <= 4:
        it = list(b); t.check(len(it) == d * d, "iteration", "")
        for q, m in zip(it, D): t.close(q.full(), m.astype(complex), "iteration", atol=1e-12)
    for bad in ("a", 1.5, None):
        try: b[bad]
        except TypeError: pass
        else: t.fail("bad-index-accepted", repr(bad))
    if rng.rand() < .2: t.check(isinstance(b._repr_html_(), str) and isinstance(repr(b), str), "repr", "")
    b2 = pickle.loads(pickle.dumps(b)); t.same(np.asarray(b2.data), D, "pickle"); t.check(list(b2.dims) == dims and list(b2.labels) == list(b.labels), "pickle", "")
    t.seen((name, tuple(dims)))


def sec_convert(t):
    rng = t.rng
    name, b, el, dims = make(rng)
    D = np.array(b.data); d = int(np.prod(dims))
    keep = D.copy()
    t.describe((name, dims))
    k = int(rng.randint(5)); A = herm(rng, d, k); B = herm(rng, d)
    qa = qt.Qobj(A, dims=[dims, dims] if rng.rand() < .7 else [[d], [d]]); qb = qt.Qobj(B, dims=[dims, dims])
    xa = b.state_to_modelparams(qa); xb = b.state_to_modelparams(qb)
    t.check(isinstance(xa, np.ndarray) and xa.shape == (d * d,) and xa.dtype.kind == 'f', "params-shape", lambda: "%r %s" % (xa.dtype, xa.shape))
    t.close(xa, np.array([np.trace(D[i] @ A).real for i in range(d * d)]), "params", rtol=1e-9, atol=1e-12)
    sc = 1 + np.abs(A).max() * np.abs(B).max() * d
    t.close(xa @ xb, np.trace(A @ B).real, "inner-product", rtol=1e-9, atol=1e-11 * sc)
    c = rng.randn(2)
    t.close(b.state_to_modelparams(c[0] * qt.Qobj(A, dims=[dims, dims]) + c[1] * qb), c[0] * xa + c[1] * xb, "not-linear", atol=1e-11 * sc)
    if k in (1, 2, 3): t.close(xa[0], 1 / np.sqrt(d), "trace-coordinate", rtol=1e-10)
    back = b.modelparams_to_state(xa)
    t.check(back.dims == [dims, dims], "state-dims", lambda: str(back.dims))
    t.close(back.full(), A.astype(complex), "round-trip", atol=1e-11 * sc)
    n = int(rng.choice([1, 2, 5])); X = rng.randn(n, d * d) * 10 ** rng.uniform(-2, 2)
    X0 = X.copy()
    if rng.rand() < .3: X = np.repeat(X, 2, axis=0)[::2]
    L = b.modelparams_to_state(X)
    t.check(len(L) == n and all(isinstance(q, qt.Qobj) for q in L), "batch", lambda: repr(type(L)))
    for i, q in enumerate(L):
        t.close(q.full(), np.einsum('i,iab->ab', X0[i], D), "state", rtol=1e-9, atol=1e-12)
        t.check(q.dims == [dims, dims], "state-dims", lambda: str(q.dims))
        t.close(b.state_to_modelparams(q), X0[i], "round-trip", rtol=1e-9, atol=1e-10 * np.abs(X0).max())
    # scaling is exact, and components far below the largest one survive
    f = 10 ** rng.uniform(-6, 6)                       # QuTiP itself drops elements below 1e-12
    t.close(b.state_to_modelparams(f * qb), f * xb, "not-linear", rtol=1e-9, atol=1e-11 * (1 + f) * np.abs(B).max() * d)
    y = rng.randn(d * d) * 10. ** rng.uniform(-9, 0, d * d)
    t.close(b.state_to_modelparams(b.modelparams_to_state(y)), y, "round-trip", rtol=1e-6, atol=1e-11)
    t.check(np.array_equal(X, X0), "argument-modified", ""); t.same(np.asarray(b.data), keep, "basis-modified")
    t.seen((name, tuple(dims), k, n))


def sec_channel(t):
    """Bases over channels keep their nested dimensions and representation."""
    rng = t.rng
    base = [tm.pauli_basis(1), tm.gell_mann_basis(2), tm.gell_mann_basis(3)][rng.randint(3)]
    d = int(base.dim)
    cb = tm.BCSZChoiDistribution(base if rng.rand() < .7 else d).basis
    t.check(cb.dim == d * d and len(cb) == d ** 4, "dimensions", lambda: "%r" % cb.dim)
    ch = qt.rand_super_bcsz(d)
    J = qt.to_choi(ch)
    x = cb.state_to_modelparams(J)
    back = cb.modelparams_to_state(x)
    t.check(back.dims == J.dims and back.superrep == 'choi' and back.type == 'super', "channel-representation", lambda: "%s %s %s" % (back.dims, back.type, back.superrep))
    t.close(back.full(), J.full(), "round-trip", atol=1e-10)
    rho = herm(rng, d, 2)
    out = qt.vector_to_operator(qt.to_super(back) * qt.operator_to_vector(qt.Qobj(rho))).full()
    want = qt.vector_to_operator(qt.to_super(ch) * qt.operator_to_vector(qt.Qobj(rho))).full()
    t.close(out, want, "channel-action", atol=1e-9)
    t.seen(("channel", d))


def sec_superop(t):
    rng = t.rng
    name, b, el, dims = make(rng, small=True)
    D = np.asarray(b.data); d = int(np.prod(dims))
    if rng.rand() < .5: G = rng.randn(d * d, d * d); C = G @ G.T; kind = "psd"
    elif rng.rand() < .5: C = rng.randn(d * d, d * d); kind = "any"
    else: C = np.eye(d * d); kind = "identity"
    C0 = C.copy()
    Sop = b.covariance_mtx_to_superop(C)
    t.describe((name, dims, kind))
    t.check(Sop.type == 'super' and Sop.dims == [[dims, dims], [dims, dims]], "superop-type", lambda: "%s %s" % (Sop.type, Sop.dims))
    A, B = herm(rng, d, 0), herm(rng, d, 0)
    xa = np.array([np.trace(m @ A).real for m in D]); xb = np.array([np.trace(m @ B).real for m in D])
    out = qt.vector_to_operator(Sop * qt.operator_to_vector(qt.Qobj(B, dims=[dims, dims])))
    t.close(out.full(), np.einsum('i,iab->ab', C0 @ xb, D), "superop-action", rtol=1e-9, atol=1e-9 * (1 + np.abs(C).max()))
    t.close(np.trace(A @ out.full()), complex(xa @ C0 @ xb), "superop-form", rtol=1e-8, atol=1e-9 * (1 + np.abs(C).max()))
    t.check(np.array_equal(C, C0), "argument-modified", "")
    if kind == "psd":        # a posterior's own covariance
        m = tm.TomographyModel(b); up = qi.SMCUpdater(m, 30, tm.GinibreDistribution(b))
        V = up.est_covariance_mtx(); Sv = b.covariance_mtx_to_superop(V)
        E = np.array([x @ D.reshape(d * d, -1) for x in up.particle_locations]).reshape(-1, d, d)
        v = np.var([np.trace(A @ r).real for r in E])
        out = qt.vector_to_operator(Sv * qt.operator_to_vector(qt.Qobj(A, dims=[dims, dims]))).full()
        t.close(np.trace(A @ out).real, v, "posterior-variance", rtol=1e-6, atol=1e-9)
    t.seen((name, tuple(dims), kind))


SECTIONS = [
    Section("basis", sec_basis, 200),
    Section("convert", sec_convert, 300),
    Section("channel", sec_channel, 24),
    Section("superop", sec_superop, 120),
]
