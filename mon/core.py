"""Runner shared by all checks: case generation, verdicts, evidence, replay.

A check is a module mon/cNN.py with
    SECTIONS = [Section(name, fn, quick, thorough), ...]
Each section's fn(t) is one execution of the real code under a monitor.  `t` is
a Case: t.rng is the generator's private random stream (never numpy's global
one, which belongs to the code under test and is reseeded for every case).
"""
import sys, os, time, json, signal, traceback, zlib, random, hashlib, warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QV_REPO", "/repo")
CPU_LIMIT = 150          # CPU seconds per case; cases normally take well under 5 s
WALL_LIMIT = {"quick": 780, "thorough": 7200}
SOFT_LIMIT = {"quick": 300, "thorough": 3600}     # no new case is started after this many seconds
# Cheap checks run this many times their sections' case numbers in both tiers; in the thorough
# tier they run THOROUGH times as much again.
SCALE = dict(C01=4, C03=20, C04=8, C05=4, C06=8, C08=6, C09=10, C10=4, C11=6, C12=6, C13=8, C15=3, C16=10, C18=10,
             C19=3, C20=3, C21=6, C22=6, C24=5, C25=10, C26=5, C27=8, C28=12)
THOROUGH = 6


class Violation(Exception):
    def __init__(self, mech, msg):
        Exception.__init__(self, "%s: %s" % (mech, msg))
        self.mech, self.msg = mech, msg


class Skip(Exception):
    """A generated case that turns out not to exercise the property."""


class CaseTimeout(BaseException):
    pass


class Section(object):
    def __init__(self, name, fn, quick, thorough=None, serial=False, optional=False):
        self.name, self.fn, self.optional = name, fn, optional   # optional: may skip where the sandbox lacks something
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8


def h32(*parts):
    return zlib.crc32(repr(parts).encode()) & 0x7fffffff


class Case(object):
    def __init__(self, prop, section, idx, seed, tier):
        import numpy as np
        self.prop, self.section, self.idx, self.seed, self.tier = prop, section, idx, seed, tier
        self.rng = np.random.RandomState(h32(prop, section, idx, seed))
        self.evaluations = 0
        self.keys = set()
        self.counters = {}
        self.desc = None
        self.thorough = tier == "thorough"

    # -- bookkeeping ---------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def seen(self, key, n=1):
        """One monitored observation; `key` identifies the non-trivial shape."""
        self.evaluations += n
        self.keys.add(hashlib.md5(repr((self.section, key)).encode()).hexdigest()[:12])

    def describe(self, d):
        self.desc = d

    # -- oracles -------------------------------------------------------
    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, cond, mech, msg=""):
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)

    def close(self, got, want, mech, rtol=1e-9, atol=1e-11, msg=""):
        import numpy as np
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(mech, "shape %s, expected %s. %s" % (got.shape, want.shape, msg))
        if got.size == 0:
            return
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)[0]
            g = got[tuple(bad)]; w = want[tuple(bad)]
            raise Violation(mech, "at %s got %r, expected %r (%d of %d differ). %s"
                            % (tuple(bad), g, w, (~ok).sum(), ok.size, msg() if callable(msg) else msg))

    def same(self, got, want, mech, msg=""):
        """Bit-identical arrays."""
        import numpy as np
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape or got.dtype != want.dtype or got.tobytes() != want.tobytes():
            raise Violation(mech, "values differ: got %s, expected %s. %s" % (short(got), short(want), msg))

    # -- sequential statistical test -------------------------------------
    def stat(self, mech, pvalue, n, growth=4, msg=""):
        """pvalue(n) draws a fresh sample of size n and returns (p, info).
        Three independent stages; an alarm needs p<1e-2, then p<1e-6, then p<1e-6."""
        p1, info = pvalue(n)
        self.evaluations += 1
        self.count("statistical tests")
        self.count("samples tested", n)
        if not (p1 < 1e-2):
            if p1 != p1:
                raise Violation(mech, "test statistic is NaN. %s %s" % (info, msg))
            return
        n2 = n * growth
        self.count("samples tested", n2)
        p2, info2 = pvalue(n2)
        if not (p2 < 1e-6):
            return
        self.count("samples tested", n2)
        p3, info3 = pvalue(n2)
        if p3 < 1e-6:
            raise Violation(mech, "sampled law differs from the reference: p-values %.1e, %.1e, %.1e with n=%d,%d,%d; %s %s"
                            % (p1, p2, p3, n, n2, n2, info3, msg))


def short(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + "..."


def _on_prof(sig, frame):
    raise CaseTimeout()


def run_case(prop, sec, idx, seed, tier):
    import numpy as np
    t = Case(prop, sec.name, idx, seed, tier)
    np.random.seed(h32("global", prop, sec.name, idx, seed))
    random.seed(h32("py", prop, sec.name, idx, seed))
    out = dict(section=sec.name, idx=idx, status="ok")
    errstate = np.geterr()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sec.fn(t)
    except Violation as e:
        out.update(status="violation", mech=e.mech, msg=e.msg, tb=traceback.format_exc())
    except Skip:
        out.update(status="skip")
    except CaseTimeout:
        out.update(status="violation", mech="no-termination",
                   msg="case used more than %d CPU s (cases take a few seconds at most)" % CPU_LIMIT,
                   tb=traceback.format_exc())
    except MemoryError:
        out.update(status="error", msg="out of memory", tb=traceback.format_exc())
    except Exception as e:
        tb = traceback.format_exc()
        # Inputs are all admissible, so an exception is itself a broken guarantee,
        # whether raised by the library or by an oracle given a malformed result.
        out.update(status="violation", mech="exception:" + type(e).__name__, msg=str(e)[:500], tb=tb)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        np.seterr(**errstate)
    out.update(evaluations=t.evaluations, keys=t.keys, counters=t.counters,
               desc=None if t.desc is None else short(t.desc))
    return out


_MOD = None


def _work(args):
    prop, sname, idxs, seed, tier, soft = args
    sec = [s for s in _MOD.SECTIONS if s.name == sname][0]
    return [run_case(prop, sec, i, seed, tier) for i in idxs if time.time() < soft]


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except IOError:
        return {"findings": [], "fixed": []}


def run_check(prop, mod, seed, tier, only=None, quiet=False):
    """Returns the process exit code."""
    global _MOD
    _MOD = mod
    t0 = time.time()
    import qinfer
    src = os.path.abspath(qinfer.__file__)
    if not src.startswith(os.path.join(REPO, "src")):
        print("ERROR: qinfer imported from %s, not %s" % (src, REPO)); return 2
    sections = mod.SECTIONS
    if only:
        sections = [s for s in sections if s.name == only[0]]
    tasks = []; planned = {}
    soft = t0 + SOFT_LIMIT[tier]
    for s in sections:
        n = s.thorough if tier == "thorough" else s.quick
        if not s.optional: n *= SCALE.get(prop, 1) * (THOROUGH if tier == "thorough" and prop in SCALE else 1)
        planned[s.name] = n
        idxs = list(range(n)) if not only or only[1] is None else [only[1]]
        nchunks = max(1, min(len(idxs), 24 if n < 200 else 48 if n < 2000 else 192))
        for c in range(nchunks):
            part = idxs[c::nchunks]
            if part:
                tasks.append((c / float(nchunks), (prop, s.name, part, seed, tier, soft)))
    tasks = [tk for _, tk in sorted(tasks, key=lambda x: x[0])]        # sections interleaved
    results = []
    workers = int(os.environ.get("QV_WORKERS", "6"))
    timed_out = False
    if only and only[1] is not None:
        for tk in tasks:
            results.extend(_work(tk))
    else:
        # interleave so that long sections start early
        ctx = mp.get_context("fork")
        pool = ctx.Pool(workers, maxtasksperchild=None)
        try:
            pend = [pool.apply_async(_work, (tk,)) for tk in tasks]
            deadline = t0 + WALL_LIMIT[tier]
            for r in pend:
                try:
                    results.extend(r.get(timeout=max(1, deadline - time.time())))
                except mp.TimeoutError:
                    timed_out = True
                    break
        finally:
            pool.terminate(); pool.join()

    # ---- aggregate ----
    known = load_known()
    kn = {(k["property"], k["section"], k["mechanism"]): k for k in known["findings"]}
    ev = 0; keys = set(); counters = {}; samples = []; per = {}
    viol = []; errors = []; found = {}
    for r in results:
        ev += r["evaluations"]; keys |= r["keys"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        p = per.setdefault(r["section"], dict(cases=0, skipped=0, observations=0, distinct=set()))
        p["cases"] += 1; p["observations"] += r["evaluations"]; p["distinct"] |= r["keys"]
        if r["status"] == "skip": p["skipped"] += 1
        if r["desc"] and len([s for s in samples if s["section"] == r["section"]]) < 2:
            samples.append(dict(section=r["section"], case=r["idx"], input=r["desc"]))
        if r["status"] == "violation":
            k = (prop, r["section"], r["mech"])
            if k in kn: found.setdefault(k, r)
            else: viol.append(r)
        elif r["status"] == "error":
            errors.append(r)
    for p in per.values():
        p["distinct_nontrivial"] = len(p.pop("distinct"))
    for n, k in planned.items():
        if n in per and per[n]["cases"] < k and not only: per[n]["planned"] = k      # the soft time limit was reached
    cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=mod.RULE,
               samples=samples or [dict(note="no sample described")], sections=per,
               monitor_counters=counters, cases=len(results))
    evid = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=getattr(mod, "ASSUMPTIONS", []),
                wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1, sort_keys=True, default=str)
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]["what"]))
    code = 0
    if viol:
        rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
        shown = set()
        for r in sorted(viol, key=lambda r: (r["section"], r["idx"])):
            k = (r["section"], r["mech"])
            if k in shown: continue
            shown.add(k)
            path = os.path.join(rdir, "%s-%s-%d-s%d.json" % (prop, r["section"], r["idx"], seed))
            with open(path, "w") as f:
                json.dump(dict(property=prop, section=r["section"], case=r["idx"], seed=seed, tier=tier,
                               mechanism=r["mech"], message=r["msg"], traceback=r["tb"], input=r["desc"],
                               rerun="VERIF_SEED=%d VERIF_TIER=%s ./check %s --case %s %d"
                                     % (seed, tier, prop, r["section"], r["idx"])), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s #%d] %s: %s" % (r["section"], r["idx"], r["mech"], r["msg"]))
            if only or os.environ.get("QV_TB"):
                print(r["tb"])
            if len(shown) >= 12: break
        code = 1
    elif errors or timed_out:
        print("INCONCLUSIVE property=%s: %s" % (prop, "time limit" if timed_out else errors[0]["tb"]))
        code = 2
    else:
        for s in sections:
            p = per.get(s.name)
            if s.optional: continue
            if not p or p["observations"] == 0 or p["skipped"] > 0.9 * p["cases"]:
                print("INCONCLUSIVE property=%s: section %s observed nothing" % (prop, s.name))
                code = 2
    if not quiet:
        print("%s %s seed=%d: %d cases, %d observations, %d distinct, %d violations, %.1fs -> %d"
              % (prop, tier, seed, len(results), ev, len(keys), len(viol), time.time() - t0, code))
    return code
