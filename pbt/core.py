"""Clause registry, case recorder and the Hypothesis driver.

A *clause* is one executable statement of (part of) a property:
  strategy -> JSON-able case (dict)  and  fn(case, t)  which calls t.* to judge it.
The case alone reproduces the run, so a shrunk failing case is the replay file and replaying bypasses Hypothesis.
"""
import hashlib, json, os, signal, sys, time, traceback, zlib
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside of the stated domain (counted, never a failure)."""


class Clause:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards, examples):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards = shards
        self.examples = examples


CLAUSES = []


def clause(strategy, quick=200, thorough=None, rule='every case', shards=1, examples=()):
    """Decorator.  `strategy` may be a callable so that Hypothesis objects are built lazily."""
    def deco(fn):
        CLAUSES.append(Clause(fn.__name__, strategy, fn, quick,
                              thorough or quick * 12, rule, shards, list(examples)))
        return fn
    return deco


def jkey(case):
    return json.dumps(case, sort_keys=True, default=_jd)


def _jd(o):
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.bool_,)):
        return bool(o)
    raise TypeError(type(o))


def arr(x):
    return np.asarray(x, dtype=float)


class T:
    """Judge handed to each clause: assertions, labels, non-triviality."""

    def __init__(self):
        self.labels = set()
        self.nontriv = False
        self.worst = 0.0

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def label(self, *names):
        self.labels.update(names)

    def skip(self, why=''):
        raise Skip(why)

    def ok(self, cond, msg, **info):
        if not bool(cond):
            raise Violation(msg + ('' if not info else ' ' + ', '.join(
                '%s=%s' % (k, _short(v)) for k, v in info.items())))

    def same(self, a, b, msg):
        """Exactly equal (values and shape)."""
        a, b = np.asarray(a), np.asarray(b)
        self.ok(a.shape == b.shape, msg + ': shape %s vs %s' % (a.shape, b.shape))
        self.ok(np.array_equal(a, b, equal_nan=(a.dtype.kind == 'f' and b.dtype.kind == 'f')),
                msg, got=a, want=b)

    def equal(self, a, b, msg, rtol=1e-12):
        """The same result computed twice: equal up to rounding (a rewritten or differently aligned evaluation may differ in
        the last digits), with NaN and infinities at the same places."""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.ok(a.shape == b.shape, msg + ': shape %s vs %s' % (a.shape, b.shape))
        fin = np.isfinite(b)
        self.ok(np.array_equal(a[~fin], b[~fin], equal_nan=True) and bool(np.all(np.isfinite(a[fin]))), msg, got=a, want=b)
        if fin.any():
            self.ok(np.max(np.abs(a[fin] - b[fin])) <= rtol * np.max(np.abs(b[fin])), msg, got=a, want=b)

    def kept(self, f, x, y, msg, rtol=1e-11, scribble=True):
        """What f(x) returned stays what it was when f(y) is evaluated, and writing into it changes no later result."""
        def arrays(o):
            return [np.asarray(v) for v in (o if isinstance(o, (tuple, list)) else (o,))]
        out = arrays(f(x.copy()))
        was = [np.array(v, copy=True) for v in out]
        f(y.copy())
        for k, (a, b) in enumerate(zip(out, was)):
            self.same(a, b, '%s: value %d returned earlier changed by a later evaluation' % (msg, k))
        if scribble:
            for a in out:
                if a.dtype.kind == 'f' and a.flags.writeable:
                    a[...] = 3.25
            for k, (a, b) in enumerate(zip(arrays(f(x.copy())), was)):
                sc = np.max(np.abs(b[np.isfinite(b)]), initial=0)
                self.equal(a, b, '%s: value %d after the caller wrote into the returned arrays (scale %.3g)' % (msg, k, sc), rtol)

    def close(self, a, b, msg, rtol=1e-9, atol=0.0, scale=None, elem=False, shape=True):
        """|a-b| <= atol + rtol*scale; scale is the largest magnitude in b (or given)."""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if shape:
            self.ok(a.shape == b.shape, msg + ': shape %s, expected %s' % (a.shape, b.shape))
        else:
            self.ok(a.size == b.size, msg + ': size %s, expected %s' % (a.shape, b.shape))
            a = a.reshape(b.shape)
        if a.size == 0:
            return
        self.ok(np.all(np.isfinite(b)), 'HARNESS reference not finite: ' + msg, want=b)
        self.ok(np.all(np.isfinite(a)), msg + ': not finite', got=a, want=b)
        if elem:
            tol = atol + rtol * np.abs(b)
        else:
            s = np.max(np.abs(b)) if scale is None else scale
            tol = atol + rtol * s
        d = np.abs(a - b)
        bad = d > tol
        if np.any(bad):
            i = np.unravel_index(np.argmax(d - tol), d.shape) if d.shape else ()
            raise Violation('%s: differs by %.3e (tol %.3e) at %s: got %r want %r'
                            % (msg, float(d[i]), float(np.broadcast_to(tol, d.shape)[i]),
                               tuple(int(k) for k in i), float(a[i]), float(b[i])))


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def from_repo(exc):
    for f in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(f.filename).startswith(os.path.join(REPO, 'tmdsimpy')):
            return True
    return False


def judge(cl, case):
    """Run one case. Returns (status, message, T) with status ok | skip | fail; harness faults propagate."""
    t = T()
    a = case.get('amp') if isinstance(case, dict) else None
    if isinstance(a, float):
        t.amp = a                # size of the unknowns: scales finite difference steps
        from pbt import systems
        t.rest = systems.resting(case)
    np.seterr(all='ignore')
    try:
        signal.signal(signal.SIGPROF, _hang)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        try:
            cl.fn(case, t)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        return 'fail', 'no result after %g s of processor time (cases take less than a few seconds)' % CASE_CPU, t
    except Skip as e:
        return 'skip', str(e), t
    except Violation as e:
        if str(e).startswith('HARNESS'):
            raise
        return 'fail', str(e), t
    except (MemoryError, KeyboardInterrupt, ImportError):
        raise
    except Exception as e:
        # Valid inputs must not make the code under test raise.  An exception that never passed through the
        # repository is a fault of this harness, unless it was fed something of the wrong shape/type by the code.
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if from_repo(e):
            return 'fail', 'exception from the code under test: %s: %s' % (type(e).__name__, str(e)[:300]), t
        if isinstance(e, (ValueError, IndexError, TypeError, KeyError, AttributeError, np.linalg.LinAlgError)):
            return 'fail', 'result of the code under test could not be used: %s' % tb[-600:], t
        raise HarnessFault(tb)
    return 'ok', '', t


class HarnessFault(Exception):
    pass


class Hang(BaseException):
    """Raised by the watchdog: one case used more than CASE_CPU seconds of processor time."""


CASE_CPU = 120.0
SHRINK_CALLS = 400
SHRINK_WALL = 90.0


def _hang(signum, frame):
    raise Hang()


def run_clause(prop, cl, tier, seed, shard, budget):
    """Drive one clause (one shard); returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    n = cl.quick if tier == 'quick' else cl.thorough
    n = max(1, n // cl.shards)
    strat = cl.strategy() if callable(cl.strategy) and not hasattr(cl.strategy, 'example') else cl.strategy
    st = dict(evaluations=0, skipped=0, labels={}, samples=[], out_of_budget=0)
    seen, nontriv = set(), set()
    fails = {}
    state = dict(after_fail=0, best=None)
    t0 = time.time()

    def one(case):
        key = jkey(case)
        if key in fails:
            state['best'] = (case, fails[key])
            raise Violation(fails[key])
        if fails:
            state['after_fail'] += 1
            if state['after_fail'] > SHRINK_CALLS or time.time() - state['t_fail'] > SHRINK_WALL:
                return
        elif time.time() - t0 > budget:
            st['out_of_budget'] += 1          # inconclusive remainder, never a violation
            return
        status, msg, t = judge(cl, case)
        st['evaluations'] += 1
        if status == 'skip':
            st['skipped'] += 1
            l = 'skip: ' + msg[:40]
            st['labels'][l] = st['labels'].get(l, 0) + 1
            return
        for l in t.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if t.nontriv:
            h = hashlib.sha1(key.encode()).digest()[:10]
            if h not in nontriv:
                nontriv.add(h)
                if len(st['samples']) < 3 and len(key) < 1500:
                    st['samples'].append(json.loads(key))
        if status == 'fail':
            fails[key] = msg
            state.setdefault('t_fail', time.time())
            state['best'] = (case, msg)
            raise Violation(msg)

    failure = None
    if shard == 0:
        for case in cl.examples:
            case = json.loads(jkey(case))
            try:
                one(case)
            except Violation:
                failure = state['best']
                break
    if failure is None:
        sd = (seed * 1000003 + zlib.crc32(('%s/%s/%d' % (prop, cl.name, shard)).encode())) % (2 ** 31)
        test = given(strat)(one)
        test = hypothesis.seed(sd)(test)
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        try:
            test()
        except Violation:
            failure = state['best']
        except BaseException as e:
            # Hypothesis may wrap a failure (e.g. as Flaky) - the recorded failing case is what counts
            if state['best'] is not None and 'hypothesis' in type(e).__module__:
                failure = state['best']
            else:
                raise
    st.update(clause=cl.name, shard=shard, rule=cl.rule, nontriv=len(nontriv), wall=time.time() - t0,
              requested=n)
    if failure is not None:
        st['failure'] = dict(case=failure[0], msg=failure[1])
    return st
