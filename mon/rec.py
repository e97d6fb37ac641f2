"""Recorder: wraps every public function and method of the library, logs what
each outermost call was given and what it returned (digests), and checks that
no call modifies arrays it was given or arrays returned by earlier calls.
Also np.empty poisoning."""
import sys, types, functools, ctypes, hashlib, inspect, importlib, pkgutil
import numpy as np

MAXB = 400000


class Log(object):
    def __init__(self): self.reset()
    def reset(self):
        self.on = False; self.depth = 0; self.entries = []; self.kept = []; self.mutations = []; self.arrays = 0; self.names = set()

REC = Log()
TIMEY = ('elapsed_time',)


def h(*parts):
    m = hashlib.md5()
    for p in parts: m.update(p if isinstance(p, bytes) else repr(p).encode()); m.update(b'|')
    return m.digest()


def arr_digest(a):
    if a.dtype.hasobject: return h('obj', a.shape, [digest(x, 1) for x in a.ravel()[:200]])
    if a.dtype.names:
        return h('struct', a.shape, *[arr_digest(np.ascontiguousarray(a[n])) for n in a.dtype.names if n not in TIMEY])
    return h('arr', a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes() if a.nbytes < 40 * MAXB else b'big')


def digest(x, depth=0):
    if isinstance(x, np.ndarray): return arr_digest(x)
    if isinstance(x, np.generic): return arr_digest(np.asarray(x)) if not isinstance(x, np.void) else h('void', x.dtype.str, arr_digest(np.asarray(x)))
    if isinstance(x, (bool, int, float, complex, type(None), bytes, slice, np.dtype)): return h(type(x).__name__, repr(x))
    if isinstance(x, str): return h('path' if '/' in x else x)
    if depth > 4: return h('deep')
    if isinstance(x, (list, tuple)): return h(type(x).__name__, *[digest(i, depth + 1) for i in x])
    if isinstance(x, (set, frozenset)): return h('set', *sorted(digest(i, depth + 1) for i in x))
    if isinstance(x, dict): return h('dict', *[y for k, v in x.items() for y in (digest(k, depth + 1), digest(v, depth + 1))])
    if type(x).__name__ == 'ParticleDistribution': return h('pd', state(x))
    return h('object', type(x).__name__)


def state(o):
    try: d = vars(o)
    except TypeError: return h('slots')
    parts = []
    for k in sorted(d):
        v = d[k]
        if 'time' in k: continue
        if isinstance(v, (np.ndarray, np.generic, bool, int, float, complex, type(None))): parts += [k, digest(v)]
        elif isinstance(v, (list, tuple)) and len(v) < 200 and all(isinstance(i, (np.ndarray, np.generic, int, float)) for i in v): parts += [k, digest(v)]
    return h(*parts)


def arrays(x, out, depth=0):
    if isinstance(x, np.ndarray):
        if x.nbytes < MAXB and not x.dtype.hasobject: out.append(x)
    elif isinstance(x, (list, tuple)) and depth < 3:
        for i in x[:60]: arrays(i, out, depth + 1)
    elif depth < 3 and type(x).__name__ in ('ParticleDistribution', 'SMCUpdater'): arrays(list(vars(x).values()), out, 2)      # a posterior handed to another object
    elif isinstance(x, dict) and depth < 3:
        for i in list(x.values())[:60]: arrays(i, out, depth + 1)
    return out


def rng_digest():
    s = np.random.get_state(); return h(s[1].tobytes(), s[2], s[3], s[4])


def wrap(name, f, method):
    @functools.wraps(f)
    def g(*a, **k):
        R = REC
        if not R.on or R.depth or len(R.entries) >= 2500: return f(*a, **k)
        R.depth = 1
        try:
            ar = a[1:] if method else a
            given = [(x, arr_digest(x)) for x in arrays((ar, k), [])]
            R.kept = [(x, arr_digest(x), n) for x, d, n in R.kept]      # the workload itself may write to results it owns
            inp = h(digest(ar), digest(k), rng_digest()); out = None
            try:
                out = f(*a, **k); od = digest(out)
                return out
            except Exception as e:
                od = h('exception', type(e).__name__); raise
            finally:
                sd = state(a[0]) if method and a else b''
                R.entries.append((name, inp, h(od, sd, rng_digest()))); R.names.add(name)
                for x, d in given:
                    R.arrays += 1
                    if arr_digest(x) != d: R.mutations.append((name, "an argument of shape %s was modified in place" % (x.shape,)))
                for x, d, n in R.kept:
                    if arr_digest(x) != d: R.mutations.append((name, "an array of shape %s returned earlier by %s was modified" % (x.shape, n)))
                R.kept = R.kept[-40:]
                live = []
                if method and a:
                    try: live = arrays(vars(a[0]), [])
                    except TypeError: pass
                for x in arrays(out, []):
                    if x.nbytes < 60000 and not any(np.may_share_memory(x, y) for y, _ in given) and not any(np.may_share_memory(x, y) for y in live):
                        R.kept.append((x, arr_digest(x), name))
        finally:
            R.depth = 0
    return g


SKIP_METHODS = {'__new__', '__del__', '__getattr__', '__getattribute__', '__setattr__', '__repr__', '__str__', '__hash__', '__reduce__', '__reduce_ex__',
                '__getstate__', '__setstate__', '__init_subclass__', '__subclasshook__', '__class_getitem__', '__enter__', '__exit__', '__iter__', '__next__', '_repr_html_'}
SKIP_MODULES = ('qinfer.tests', 'qinfer.tomography.legacy', 'qinfer.gpu_models', 'qinfer.config', 'qinfer.ipy', 'qinfer._due', 'qinfer._lib', 'qinfer.tomography.plotting_tools')
_installed = False


def install():
    """Wrap every public callable defined in the library."""
    global _installed
    if _installed: return
    _installed = True
    import qinfer, qinfer.ale, qinfer.finite_difference, qinfer.tomography, qinfer.perf_testing, qinfer.simple_est
    done = {}
    for mn, m in sorted(sys.modules.items()):
        if m is None or not (mn == 'qinfer' or mn.startswith('qinfer.')) or mn.startswith(SKIP_MODULES): continue
        for n, o in list(vars(m).items()):
            if n.startswith('_'): continue
            if inspect.isclass(o) and (o.__module__ or '').startswith('qinfer') and not o.__module__.startswith(SKIP_MODULES):
                if o in done or issubclass(o, BaseException): continue
                done[o] = True
                for k, v in list(vars(o).items()):
                    if k in SKIP_METHODS or (k.startswith('_') and not k.startswith('__')): continue
                    nm = '%s.%s' % (o.__name__, k)
                    try:
                        if isinstance(v, types.FunctionType):
                            if inspect.isgeneratorfunction(v): continue
                            setattr(o, k, wrap(nm, v, True))
                        elif isinstance(v, staticmethod): setattr(o, k, staticmethod(wrap(nm, v.__func__, False)))
                    except (AttributeError, TypeError): pass
            elif isinstance(o, types.FunctionType) and (o.__module__ or '').startswith('qinfer') and not inspect.isgeneratorfunction(o):
                if o not in done: done[o] = wrap(n, o, False)
                setattr(m, n, done[o])


# ---------------------------------------------------------------- allocation poisoning
_empty, _empty_like = np.empty, np.empty_like
POISON = dict(byte=None, n=0)


def _fill(a):
    b = POISON['byte']
    if b is not None and type(a) is np.ndarray and not a.dtype.hasobject and a.nbytes and a.base is None and a.flags.owndata:
        ctypes.memset(a.ctypes.data, b, a.nbytes); POISON['n'] += 1
    return a


def p_empty(*a, **k): return _fill(_empty(*a, **k))
def p_empty_like(*a, **k): return _fill(_empty_like(*a, **k))


class poisoned(object):
    def __init__(self, byte): self.byte = byte
    def __enter__(self):
        POISON['byte'] = self.byte; np.empty, np.empty_like = p_empty, p_empty_like
    def __exit__(self, *a):
        POISON['byte'] = None; np.empty, np.empty_like = _empty, _empty_like
