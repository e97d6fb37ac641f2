"""A living updater and its freshly built twin.

An updater that went through a history must answer every question like a new
object holding copies of the same particles and weights: nothing remembered
from an earlier moment may leak into an answer.  `walk` yields such pairs.
"""
import numpy as np
import qinfer as qi
from mon import gen


def twin(u, model=None):
    """A new updater with copies of the particles and weights of u."""
    x, w = np.array(u.particle_locations), np.array(u.particle_weights)
    v = qi.SMCUpdater(model or u.model, len(x), gen.FnPrior(lambda r, k: np.resize(x, (k, x.shape[1])), x.shape[1]), resample_thresh=u.resample_thresh)
    v.particle_locations = x; v.particle_weights = w
    return v


def bare(u):
    """A particle distribution with copies of the particles and weights of u."""
    return qi.ParticleDistribution(particle_locations=np.array(u.particle_locations), particle_weights=np.array(u.particle_weights))


def walk(t, steps=8, nmax=30, spec=None, ok=None):
    """Yields (updater, what just happened, spec) after every event of a random history."""
    r = t.rng
    spec = spec or gen.lab(r, z=(0, 2), zero=False)
    n = int(r.choice([5, 12, nmax]))
    u = qi.SMCUpdater(spec.model, n, gen.FnPrior(lambda rr, k: spec.mps(rr, k), spec.model.n_modelparams), resample_thresh=float(r.choice([0, 0, .5])))
    if ok is not None and not ok(u): return
    yield u, 'start', spec
    for _ in range(steps):
        ev = r.choice(['data', 'data', 'data', 'batch', 'resample', 'reset', 'weights', 'weights in place', 'locations in place', 'swap'])
        w, x = np.array(u.particle_weights), np.array(u.particle_locations); k = u.n_particles
        def datum(w, x):
            e = spec.eps(r, 1)
            o = spec.outs(e[0]); p = np.array([sum(w[i] * spec.pr(q, x[i], e[0]) for i in range(len(w))) for q in o]); p = np.clip(p, 0, None)
            return o[r.choice(len(o), p=p / p.sum())], e
        if ev == 'data':
            o, e = datum(w, x)
            a = spec.arr([o])
            try: u.update(a[0] if a.dtype.names else o, e)
            except RuntimeError: ev = 'refused data'
        elif ev == 'batch':
            L = [datum(w, x) for _ in range(int(r.randint(1, 4)))]
            try: u.batch_update(spec.arr([a for a, _ in L]), np.concatenate([b for _, b in L]), resample_interval=int(r.choice([1, 100])))
            except RuntimeError: return
        elif ev == 'resample': u.resample()
        elif ev == 'reset': u.reset(n_particles=None if r.rand() < .5 else int(r.choice([4, 9, 17])))
        elif ev == 'weights': u.particle_weights = r.dirichlet(np.ones(k))
        elif ev == 'weights in place': u.particle_weights[:] = r.dirichlet(np.ones(k) * .3) * .999 + .001 / k
        elif ev == 'locations in place': u.particle_locations[:] = spec.mps(r, k)
        elif ev == 'swap': u.particle_locations[[0, -1]] = u.particle_locations[[-1, 0]]
        if ok is not None and not ok(u): return
        yield u, ev, spec
