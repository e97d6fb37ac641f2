"""C14: finite domains: enumeration, counts, membership, example point; products; count vectors."""
import math, itertools
import numpy as np
import qinfer as qi
from qinfer.domains import IntegerDomain, RealDomain, MultinomialDomain, ProductDomain
from mon import gen
from mon.core import Section, Skip

RULE = ("one observation = one domain compared with a set-theoretic reference, or one batch of candidates judged; "
        "distinct = (domain structure, batch shape class, member/non-member)")
ASSUMPTIONS = ["candidates in product domains are one-dimensional batches of the domain's dtype"]


def integer(t, finite=True):
    lo = int(t.rng.randint(-6, 7)); hi = lo + int(t.rng.randint(0, 7))
    if t.rng.rand() < (.3 if finite else .6):                   # far from zero
        s = int(t.rng.choice([-1, 1])) * int(10 ** t.rng.uniform(1, 12)); lo += s; hi += s
    if not finite:
        c = t.rng.randint(3)
        return [IntegerDomain(min=lo), IntegerDomain(min=-np.inf, max=hi), IntegerDomain(min=-np.inf, max=np.inf)][c], None, ([lo, -np.inf, -np.inf][c], [np.inf, hi, np.inf][c])
    if t.rng.rand() < .3: return IntegerDomain(min=float(lo), max=np.float64(hi)), [(v,) for v in range(lo, hi + 1)], (lo, hi)
    if lo == 0 and t.rng.rand() < .5: return IntegerDomain(max=hi), [(v,) for v in range(hi + 1)], (0, hi)
    return IntegerDomain(min=lo, max=hi), [(v,) for v in range(lo, hi + 1)], (lo, hi)


def flat(v):
    """A domain value as nested plain tuples of integers or floats."""
    if isinstance(v, (np.void, tuple)):
        return tuple(flat(u) for u in v)
    if isinstance(v, np.ndarray): return tuple(flat(u) for u in v)
    return v.item() if hasattr(v, 'item') else v


def leaves(x):
    if isinstance(x, tuple):
        return tuple(itertools.chain.from_iterable(leaves(v) for v in x))
    return (x,)


def common(t, d, members, name):
    t.check(d.is_finite is True or bool(d.is_finite), "finite", name)
    t.check(bool(d.is_discrete) == (not bool(d.is_continuous)), "discrete", name)
    vals = d.values
    t.check(isinstance(vals, np.ndarray) and vals.ndim == 1, "values-shape", "%s %r" % (name, np.shape(vals)))
    t.check(vals.dtype == np.dtype(d.dtype), "dtype", "%s: values have %s, domain says %s" % (name, vals.dtype, d.dtype))
    got = [leaves(flat(v)) for v in vals]
    t.check(len(got) == len(set(got)), "repeated-value", name)
    t.check(set(got) == set(members), "members", "%s: missing %s, extra %s" % (name, sorted(set(members) - set(got))[:3], sorted(set(got) - set(members))[:3]))
    t.check(d.n_members == len(members) and isinstance(d.n_members, (int, np.integer)), "n_members", "%s: %r of %d" % (name, d.n_members, len(members)))
    ex = d.example_point
    t.check(isinstance(ex, np.ndarray) and ex.size == 1 and ex.dtype == np.dtype(d.dtype), "example", "%s %r" % (name, ex))
    t.check(leaves(flat(ex.ravel()[0])) in set(members), "example", "%s: example %r is not a member" % (name, ex))
    t.check(d.in_domain(ex) == True, "example", "%s rejects its example" % name)
    t.check(d.in_domain(vals) == True, "membership", "%s rejects its own values" % name)
    i = t.rng.randint(len(vals))
    t.check(d.in_domain(vals[i:i + 1]) == True, "membership", "%s rejects %s" % (name, vals[i]))
    t.check(d.in_domain(vals[::2]) == True and d.in_domain(vals[::-1]) == True, "membership-strided", name)
    t.check(d.in_domain(np.concatenate([vals[:1]] * 3)) == True, "membership-repeated", name)
    b = vals.copy(); d.in_domain(vals); t.check(np.array_equal(b, vals), "modified-input", name)
    t.check(np.array_equal(d.values, b), "unstable-values", name)


def sec_integer(t):
    d, mem, (lo, hi) = integer(t)
    name = "IntegerDomain(%s, %s)" % (lo, hi)
    t.describe(name)
    common(t, d, mem, name)
    t.check(d.min == lo and d.max == hi, "bounds", name)
    t.check(list(d.values) == list(range(lo, hi + 1)), "order", name)
    for v in (lo - 1, hi + 1, lo - 100, lo + .5, hi + .25, np.nan, np.inf, -np.inf, 1j, lo + 1e-3):
        t.check(d.in_domain(np.array([v])) == False, "non-member-accepted", "%s accepts %r" % (name, v))
        batch = np.array([lo, v, hi]); t.check(d.in_domain(batch) == False, "non-member-in-batch", "%s accepts a batch with %r" % (name, v))
        t.check(d.in_domain(np.array([[lo, hi], [hi, v]])) == False, "non-member-in-batch", "%s 2-d %r" % (name, v))
    for v in (lo, hi): t.check(d.in_domain(v) == True and d.in_domain(np.array([float(v)])) == True, "member-rejected", "%s rejects %r" % (name, v))
    t.check(d.in_domain(np.array([['a']])) == False, "non-member-accepted", "text")
    for v in (lo + .4, hi - .4, np.nextafter(float(lo), np.inf), np.nextafter(float(hi), -np.inf)):
        if not float(v).is_integer():
            t.check(d.in_domain(np.array([v])) == False, "non-member-accepted", "%s accepts %r" % (name, v))
    # against a brute-force reference
    c = t.rng.choice(np.concatenate([np.arange(lo - 2, hi + 3), np.arange(lo - 2, hi + 3) + .5]), size=(50, int(t.rng.randint(1, 4))))
    for row in c:
        want = all(float(v).is_integer() and lo <= v <= hi for v in row)
        t.check(d.in_domain(row) == want, "membership-rule", "%s on %s" % (name, row))
    t.seen(("int", hi - lo, lo < 0 < hi), 60); t.count("candidates judged", 80)


def sec_open(t):
    d, _, (lo, hi) = integer(t, finite=False)
    real = t.rng.rand() < .6
    if real:
        a, b = [(-np.inf, np.inf), (t.rng.normal(), np.inf), (-np.inf, t.rng.normal())][t.rng.randint(3)] if t.rng.rand() < .6 else sorted(t.rng.normal(size=2) * 3)
        d = RealDomain(min=a, max=b); lo, hi = a, b
    name = "%s(%s, %s)" % (type(d).__name__, lo, hi); t.describe(name)
    t.check(d.is_finite == False and d.n_members == np.inf, "infinite", name)
    t.check(bool(d.is_continuous) == real and bool(d.is_discrete) == (not real), "continuous", name)
    t.check(d.min == lo and d.max == hi, "bounds", name)
    ex = d.example_point
    t.check(ex.size == 1 and ex.dtype == np.dtype(d.dtype) and d.in_domain(ex) == True and lo <= ex.ravel()[0] <= hi, "example", "%s %r" % (name, ex))
    t.check(d.values.dtype == np.dtype(d.dtype) and len(d.values) >= 1 and d.in_domain(d.values) == True, "values", name)
    off = 0 if not (np.isfinite(lo) or np.isfinite(hi)) else lo if np.isfinite(lo) else hi
    for row in off + t.rng.normal(size=(40, int(t.rng.randint(1, 4)))) * 4:
        if not real: row = np.where(t.rng.rand(len(row)) < .8, np.round(row), row)
        want = all(lo <= v <= hi and (real or float(v).is_integer()) for v in row)
        t.check(d.in_domain(row) == want, "membership-rule", "%s on %s" % (name, row))
    for e in (lo, hi):
        if np.isfinite(e):
            t.check(d.in_domain(np.array([e])) == True, "bound-rejected", "%s rejects its bound" % name)
            t.check(d.in_domain(np.array([e - 1 if e == lo else e + 1])) == False, "non-member-accepted", name)
            far = e * 1e3 if (e < 0) == (e == hi and hi != lo) else -e * 1e3
            if lo <= far <= hi and not real and far != 0:
                t.check(d.in_domain(np.array([far])) == True and d.in_domain(np.array([far + .4])) == (False if np.float64(far + .4) != far else True), "membership-rule", "%s on %r" % (name, far))
            if real: t.check(d.in_domain(np.array([np.nextafter(e, -np.inf if e == lo else np.inf)])) == False, "non-member-accepted", name)
    t.check(d.in_domain(np.array([1j])) == False and d.in_domain(np.array([np.nan])) == False, "non-member-accepted", name)
    t.seen(("open", real, np.isfinite(lo), np.isfinite(hi)), 42); t.count("candidates judged", 42)


def sec_multinomial(t):
    k = int(t.rng.randint(1, 6)); n = int(t.rng.randint(0, 7 if k < 4 else 5))
    if t.rng.rand() < .2: n = np.uint64(n)
    d = MultinomialDomain(n_meas=n, n_elements=k) if t.rng.rand() < .7 or k != 2 else MultinomialDomain(n)
    n = int(n); name = "MultinomialDomain(n_meas=%d, n_elements=%d)" % (n, k); t.describe(name)
    mem = list(gen.compositions(n, k))
    common(t, d, mem, name)
    t.check(d.n_meas == n and d.n_elements == k, "attributes", name)
    t.check(not d.is_continuous, "continuous", name)
    reg = d.to_regular_array(d.values)
    t.check(reg.shape == (len(mem), k), "regular-shape", "%s %s" % (name, reg.shape))
    t.check(np.array_equal(d.from_regular_array(reg), d.values) and d.from_regular_array(reg).dtype == d.dtype, "regular-roundtrip", name)
    t.check(np.array_equal(reg.sum(1), np.full(len(mem), n)), "total", name)
    A = t.rng.randint(-2, n + 3, size=(40, k))
    A[:15] = np.array(mem)[t.rng.randint(len(mem), size=15)]
    if k > 1:
        A[15:20] = A[:5]; i, j = t.rng.permutation(k)[:2]; A[15:20, i] += n + 1; A[15:20, j] -= n + 1   # right total, negative entry
    for row in A:
        want = tuple(row) in set(mem)
        t.check(d.in_domain(d.from_regular_array(row[None])) == want, "membership-rule", "%s on %s" % (name, row))
    pick = A[t.rng.permutation(40)[:int(t.rng.randint(1, 4))]]
    t.check(d.in_domain(d.from_regular_array(pick)) == all(tuple(r) in set(mem) for r in pick), "membership-batch", name)
    m0 = t.rng.randint(len(mem)); bad = np.array(mem)[[m0, m0]]; bad[1, 0] += 1
    t.check(d.in_domain(d.from_regular_array(bad)) == False and d.in_domain(d.from_regular_array(bad[::-1])) == False, "non-member-in-batch", name)
    if n > 0:
        comp = np.array(mem)[[m0, m0]]; i = int(np.argmax(comp[0])); comp[0, i] -= 1; comp[1, i] += 1   # totals n-1 and n+1
        t.check(d.in_domain(d.from_regular_array(comp)) == False, "non-member-in-batch", "%s accepts totals that only average to n" % name)
    B = t.rng.randint(0, 5, size=(2, 3, k))
    C = d.from_regular_array(B); t.check(C.shape == (2, 3) and np.array_equal(d.to_regular_array(C), B), "regular-nd", name)
    t.check(d.from_regular_array(B[0, 0]).shape == (), "regular-single", name)
    t.check(np.array_equal(d.to_regular_array(C[:, ::2]), B[:, ::2]), "regular-strided", name)
    t.seen(("multi", n, k), 50); t.count("candidates judged", 45)


def factor(t, depth, reals):
    c = t.rng.rand()
    if depth < 2 and c < .2:
        return product(t, depth + 1, reals)
    if c < .55: d, mem, _ = integer(t); return d, [m for m in mem], False
    if reals and c < .7: return RealDomain(min=-1, max=2.5), None, True
    k, n = int(t.rng.randint(2, 4)), int(t.rng.randint(0, 3))
    return MultinomialDomain(n_meas=n, n_elements=k), list(gen.compositions(n, k)), False


def product(t, depth, reals):
    fs = [factor(t, depth, reals) for _ in range(int(t.rng.randint(1, 4)))]
    if t.rng.rand() < .2: fs = fs[:2] + [fs[t.rng.randint(len(fs[:2]))]]       # one factor object in two places
    cont = any(f[2] for f in fs)
    if not cont and math.prod(len(f[1]) for f in fs) > 4000: raise Skip()
    aslist = t.rng.rand() < .4
    d = ProductDomain([f[0] for f in fs]) if aslist else ProductDomain(*[f[0] for f in fs])
    mem = None if cont else [leaves(c) for c in itertools.product(*[f[1] for f in fs])]
    d._monitor_factors = [f[0] for f in fs]; d._monitor_members = [f[1] for f in fs]
    return d, mem, cont


def sec_product(t):
    reals = t.rng.rand() < .3
    d, mem, cont = product(t, 0, reals)
    fs, ms = d._monitor_factors, d._monitor_members
    name = "Product(%s)" % ", ".join("%s" % type(f).__name__ for f in fs); t.describe(name)
    t.check(bool(d.is_continuous) == cont, "continuous", name)
    if not cont:
        common(t, d, mem, name)
        # order of the Cartesian product is not promised; per-factor projections are
        parts = d.to_regular_arrays(d.values)
        t.check(len(parts) == len(fs), "parts", name)
        for f, p in zip(fs, parts):
            t.check(p.dtype == np.dtype(f.dtype) and p.shape == d.values.shape, "parts-dtype", "%s: %s for %s" % (name, p.dtype, f.dtype))
            t.check(f.in_domain(p) == True, "parts-members", name)
        rows = [tuple(itertools.chain.from_iterable(leaves(flat(p[i])) for p in parts)) for i in range(len(d.values))]
        t.check(rows == [leaves(flat(v)) for v in d.values], "parts-values", name)
        back = d.from_regular_arrays(parts)
        t.check(back.dtype == d.dtype and np.array_equal(back, d.values), "parts-roundtrip", name)
    else:
        t.check(d.is_finite == False and d.n_members == np.inf, "infinite", name)
        t.check(d.in_domain(d.example_point) == True and d.example_point.dtype == d.dtype, "example", name)
    # random joint values with a non-member in one factor
    n = int(t.rng.choice([1, 2, 5])); arrs = []; bad = None
    for f in fs:
        if isinstance(f, RealDomain): arrs.append(t.rng.uniform(-1, 2.5, n))
        else: v = f.values; arrs.append(v[t.rng.randint(len(v), size=n)])
    joint = d.from_regular_arrays(arrs)
    t.check(joint.shape == (n,) and joint.dtype == d.dtype, "join-shape", "%s %s" % (name, joint.shape))
    sep = d.to_regular_arrays(joint)
    for a, s in zip(arrs, sep): t.check(np.array_equal(a, s), "join-roundtrip", name)
    t.check(d.in_domain(joint) == True, "join-membership", name)
    j = t.rng.randint(len(fs)); f = fs[j]; i = t.rng.randint(n)
    arrs = [a.copy() for a in arrs]
    if isinstance(f, RealDomain): arrs[j][i] = [2.6, -1.1, np.nan][t.rng.randint(3)]
    elif isinstance(f, IntegerDomain): arrs[j][i] = f.max + 1 if t.rng.rand() < .5 else f.min - 1
    elif isinstance(f, MultinomialDomain):
        r = f.to_regular_array(arrs[j]); r = r.copy(); r[i, t.rng.randint(f.n_elements)] += 1 if t.rng.rand() < .5 else -1
        arrs[j] = f.from_regular_array(r)
    else: j = None
    if j is not None:
        t.check(d.in_domain(d.from_regular_arrays(arrs)) == False, "non-member-accepted", "%s: bad factor %d at %d of %d" % (name, j, i, n))
    t.seen(("prod", tuple(type(f).__name__ for f in fs), n), 8); t.count("joint values", n)


def sec_size(t):
    """Sizes and flags of domains too large or too open to list."""
    fs, sizes, conts = [], [], []
    for _ in range(int(t.rng.randint(1, 6))):
        c = t.rng.randint(6)
        if c == 0:
            d = [IntegerDomain(), IntegerDomain(min=-3), IntegerDomain(min=-np.inf, max=2), IntegerDomain(min=-np.inf)][t.rng.randint(4)]; n = None
        elif c == 1: d = RealDomain() if t.rng.rand() < .5 else RealDomain(min=0, max=1); n = None
        elif c == 2:
            lo = int(t.rng.randint(-9, 9)); n = int(10 ** t.rng.uniform(0, 11)); d = IntegerDomain(min=lo, max=lo + n - 1)
        elif c in (3, 4):
            m, k = int(t.rng.randint(0, 120)), int(t.rng.randint(1, 16)); d = MultinomialDomain(n_meas=m, n_elements=k); n = math.comb(m + k - 1, k - 1)
        else:
            a, b = int(10 ** t.rng.uniform(0, 7)), int(t.rng.randint(1, 40))
            d = ProductDomain(IntegerDomain(0, a), MultinomialDomain(b, 3)); n = (a + 1) * math.comb(b + 2, 2)
        fs.append(d); sizes.append(n); conts.append(isinstance(d, RealDomain))
    if t.rng.rand() < .3: i = t.rng.randint(len(fs)); fs.append(fs[i]); sizes.append(sizes[i]); conts.append(conts[i])
    for d, n, c in list(zip(fs, sizes, conts)) + [(ProductDomain(fs), None if None in sizes else math.prod(sizes), any(conts))]:
        name = "%s, n_members %r" % (type(d).__name__, n); t.describe(name)
        t.check(bool(d.is_finite) == (n is not None), "finite", name); t.check(bool(d.is_continuous) == c and bool(d.is_discrete) == (not c), "continuous", name)
        t.check(d.n_members == (np.inf if n is None else n), "n_members", "%s: %r" % (name, d.n_members))
        t.check(d.in_domain(d.example_point) == True and d.example_point.size == 1 and d.example_point.dtype == np.dtype(d.dtype), "example", name)
        t.seen(("size", type(d).__name__, n is None, c, 0 if not n else int(math.log10(n))), 4)


SECTIONS = [Section("integer", sec_integer, 150), Section("open", sec_open, 150), Section("multinomial", sec_multinomial, 200),
            Section("product", sec_product, 400), Section("size", sec_size, 150)]
