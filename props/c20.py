"""C20 Parallel nonlinear solver stops exactly on its configured tolerances."""
import contextlib, copy, io
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr, Violation

TOLS = ('xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel')


@st.composite
def config(draw, ls=False, reform=(1, 5)):
    c = {}
    stop = draw(st.lists(st.sampled_from(TOLS), min_size=1, max_size=3, unique=True))
    acc = draw(st.lists(st.sampled_from(TOLS), max_size=2, unique=True))
    for k in TOLS:
        if k in stop or k in acc:
            lim = (1e-10, 1e-2) if k in stop else (1e-5, 1.0)   # accepting tolerances are the looser ones
            c[k] = draw(gen.logn(*lim, 40)) if draw(st.integers(0, 9)) else 0.0   # zero: never met
    if 'xtol' in stop and draw(st.integers(0, 3)) == 0:
        c['xtol'] = None
    c['stopping_tol'], c['accepting_tol'] = stop, acc
    c['reform_freq'] = draw(st.integers(*reform))
    c['max_steps'] = draw(st.sampled_from([1, 2, 3, 5, 8, 20, 20, 30]))
    c['line_search_iters'] = draw(st.integers(1, 6)) if ls else 0
    if ls:
        c['line_search_tol'] = draw(st.sampled_from([0.5, 0.1, 0.9, 1e-3]))
        c['line_search_same_sign'] = draw(st.booleans())
    return c


@st.composite
def prob(draw, nmax=4):
    n = draw(st.integers(1, nmax))
    return dict(n=n, A=draw(gen.spd(n, 0.5)), S=draw(gen.mat(n, n, 0.3)), d=[abs(x) for x in draw(gen.vec(n, 2.0))],
                s=draw(st.sampled_from([0.0, 0.0, 0.4])), b=draw(gen.vec(n, 3.0)), x0=draw(gen.vec(n, 2.0)))


class Fun:
    """Strongly monotone smooth problem (plus a bounded wiggle); records every evaluation."""

    def __init__(self, p, nan_after=None, nan_what='R'):
        S = arr(p['S'])
        self.A, self.d, self.b, self.s = arr(p['A']) + (S - S.T), arr(p['d']), arr(p['b']), p['s'] * 0.5
        self.calls, self.given, self.nan_after, self.nan_what = [], [], nan_after, nan_what

    def raw(self, x):
        return (self.A @ x + self.d * x ** 3 + self.s * np.sin(x) - self.b,
                self.A + np.diag(3 * self.d * x ** 2 + self.s * np.cos(x)))

    def __call__(self, x, calc_grad=True):
        x = np.array(x, dtype=float)
        k = len(self.calls)
        R, J = self.raw(x)
        bad = self.nan_after is not None and k >= self.nan_after
        if bad:
            if self.nan_what == 'R' or not calc_grad:
                R = R * np.nan
            else:
                J = J * np.nan
        self.calls.append((x, bool(calc_grad), R.copy(), J.copy(), bad))
        self.given += [(R, R.copy())] + [(J, J.copy())] * bool(calc_grad)
        return (R, J, 'extra') if calc_grad else (R, 'extra')


class Stop(Exception):
    """Raised by a residual function in the middle of a solve."""


class Raising(Fun):
    """Residual that raises at its k-th evaluation."""

    def __init__(self, p, k):
        super().__init__(p)
        self.k = k

    def __call__(self, x, calc_grad=True):
        if len(self.calls) >= self.k:
            raise Stop()
        return super().__call__(x, calc_grad)


def make(c, extra=None):
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    cfg = dict(copy.deepcopy(c))
    cfg['verbose'] = False
    return NonlinearSolverOMP(config=cfg)


def solve(s, f, x0, **k):
    x = x0.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        out = s.nsolve(f, x, **k)
    for a, was in getattr(f, 'given', ()):
        if not np.array_equal(a, was, equal_nan=True):
            raise Violation('the solver wrote into an array that belongs to the residual function')
    return out, x


def bfgs_dir(H0, hist, R):
    """Dense inverse BFGS update of H0 with pairs (s, y)."""
    n = len(R)
    H = H0
    for s, y in hist:
        p = 1.0 / (s @ y)
        V = np.eye(n) - p * np.outer(s, y)
        H = V @ H @ V.T + p * np.outer(s, s)
    return -H @ R


def measures(k, r, u, e, r0, u0, e0):
    m = dict(xtol=u, rtol=r, etol=np.inf if k == 0 else abs(e), xtol_rel=u / u0 if u0 else np.nan,
             rtol_rel=r / r0 if r0 else np.nan,
             # no energy before the second evaluation: not met
             etol_rel=np.inf if k == 0 else abs(e) / e0 if e0 else np.nan)
    return m


def met(names, m, tol):
    """(satisfied, ambiguous)"""
    sat = amb = False
    for n in names:
        v = m[n]
        if np.isnan(v):
            amb = amb or n == 'etol_rel'
            continue
        if v < tol[n]:
            sat = True
        if abs(v - tol[n]) < 1e-5 * tol[n]:
            amb = True
    return sat, amb


@st.composite
def stop_case(draw):
    c = draw(prob())
    c['cfg'] = draw(config())
    c['arg'] = draw(st.sampled_from([None, None, None, None, 1e-3, 1e-9, 0.0]))
    return c


@clause(stop_case, quick=1500, shards=4, rule='several steps')
def stopping(c, t):
    """Every step taken, every tolerance measure and the decision to stop, accept or fail, recomputed from the recorded
    evaluations (Newton steps at the reform frequency, BFGS between)."""
    cfg = c['cfg']
    f = Fun(c)
    s = make(cfg)
    before = copy.deepcopy(s.config)
    x0 = arr(c['x0'])
    kw = {} if c['arg'] is None else dict(xtol=c['arg'])
    (X, R, J, sol), xin = solve(s, f, x0, **kw)
    t.same(xin, x0, 'X0 modified')
    t.ok(s.config == before, 'configuration changed by nsolve', before=before, after=s.config)
    tol = {k: cfg.get(k) for k in TOLS}
    if c['arg'] is not None:
        tol['xtol'] = c['arg']
    if tol['xtol'] is None:
        tol['xtol'] = 1e-6 * c['n']
    q, nmax = cfg['reform_freq'], cfg['max_steps']
    calls = f.calls
    t.ok(sol['nfev'] == len(calls), 'nfev', got=sol['nfev'], calls=len(calls))
    t.ok(len(calls) <= nmax, 'more evaluations than max_steps')
    t.ok(all(g == (k % q == 0) for k, (_, g, _, _, _) in enumerate(calls)), 'Jacobian evaluated at the reform frequency',
         flags=[g for _, g, _, _, _ in calls])
    t.ok(sol['njev'] == sum(g for _, g, _, _, _ in calls), 'njev', got=sol['njev'])
    xs = [a[0] for a in calls] + [np.array(X)]
    t.same(xs[0], x0, 'first evaluation at X0')
    hist, H0 = [], None
    steps = []
    stopped = None
    for k, (x, g, Rk, Jk, _) in enumerate(calls):
        cn = np.linalg.cond(Jk)
        if k % q == 0:
            H0, hist = np.linalg.inv(Jk), []
            d = -np.linalg.solve(Jk, Rk)
        else:
            s_, y_ = steps[-1], Rk - calls[k - 1][2]
            if abs(s_ @ y_) < 1e-6 * np.linalg.norm(s_) * np.linalg.norm(y_) or np.linalg.norm(s_) < 1e-9 \
                    or np.linalg.norm(y_) < 1e-6 * np.linalg.norm(Jk):
                # quasi-Newton pair lost in rounding; only the recorded step is used below
                hist = None if hist is None else hist
                d = xs[k + 1] - x
                hist = None
            elif hist is None:
                d = xs[k + 1] - x
            else:
                hist = hist + [(s_, y_)]
                d = bfgs_dir(H0, hist, Rk)
        real = xs[k + 1] - x
        if hist is not None:
            t.close(real, d, 'step %d (%s)' % (k, 'Newton' if k % q == 0 else 'BFGS'), rtol=1e-6 * cn,
                    atol=1e-14 * cn * (1 + np.abs(x).max()))
        steps.append(real)
        r, u = np.linalg.norm(Rk), np.linalg.norm(d)
        e = Rk @ steps[k - 1] if k else np.inf
        if k == 0:
            r0, u0, e0 = r, u, np.inf
        if k == 1:
            e0 = abs(e)
        m = measures(k, r, u, e, r0, u0, e0)
        # step sizes recovered from differences of iterates carry rounding of the iterates
        fuzzy = u < 1e-13 * (1 + np.abs(x).max()) or r < 1e-14 or (k and abs(e) < 1e-26)
        sat, amb = met(cfg['stopping_tol'], m, tol)
        last = k == len(calls) - 1
        if amb or (fuzzy and any(n_ not in ('xtol', 'rtol') for n_ in cfg['stopping_tol'])):
            t.skip('tolerance comparison within rounding')
        if sat and not last:
            t.ok(False, 'continued although a stopping tolerance is met at step %d' % k, measures=m, tol=tol)
        if last and not sat and fuzzy and len(calls) < nmax:
            # the iteration stagnated exactly at the root with a tolerance that cannot be met
            t.ok(not sol['success'], 'success without meeting a stopping tolerance', measures=m, tol=tol)
            t.label('stagnated')
            continue
        if last and not sat:
            t.ok(len(calls) == nmax, 'stopped at step %d of %d without meeting a stopping tolerance' % (k, nmax),
                 measures=m, tol=tol)
            acc, amb = met(cfg['accepting_tol'], m, tol)
            if amb:
                t.skip('tolerance comparison within rounding')
            t.ok(sol['success'] == acc, 'success at the iteration limit', got=sol['success'], measures=m, tol=tol)
            t.label('accepted' if acc else 'failed')
        if last and sat:
            t.ok(sol['success'] is True or sol['success'] == True, 'success not reported', measures=m, tol=tol)
            t.label('converged', *[n_ for n_ in cfg['stopping_tol'] if m[n_] < tol[n_]])
    t.close(np.array(R), calls[-1][2], 'returned residual is the last evaluated one', rtol=0, atol=0)
    t.label('q%d' % q)
    t.nontrivial(len(calls) >= 3)


@st.composite
def root_case(draw):
    c = draw(prob())
    c['cfg'] = draw(config(ls=draw(st.booleans())))
    c['cfg']['max_steps'] = 30
    c['verbose'] = draw(st.booleans())
    return c


@clause(root_case, quick=1200, shards=4, rule='success after several evaluations')
def root_accuracy(c, t):
    """Success (any mixture of Newton, BFGS and line search) gives a point solving the equations to the tolerance;
    printing does not matter; counts follow the reform frequency."""
    cfg = c['cfg']
    f = Fun(c)
    s = make(cfg)
    before = copy.deepcopy(s.config)
    (X, R, J, sol), _ = solve(s, f, arr(c['x0']))
    t.ok(s.config == before, 'configuration changed by nsolve')
    n1 = len(f.calls)
    q = cfg['reform_freq']
    t.ok(sol['njev'] == -(-sol['nfev'] // q), 'Jacobian evaluations', nfev=sol['nfev'], njev=sol['njev'], q=q)
    t.ok(sol['njev'] == sum(g for _, g, _, _, _ in f.calls), 'njev counts the calls with gradient')
    ls = cfg['line_search_iters']
    t.ok(n1 <= sol['nfev'] * (ls + 2 if ls else 1), 'number of calls', calls=n1, nfev=sol['nfev'])
    t.ok(sol['nfev'] <= cfg['max_steps'], 'nfev above max_steps')
    g2 = Fun(c)
    (X2, _, _, sol2), _ = solve(make(cfg), g2, arr(c['x0']), verbose=c['verbose'])
    t.equal(np.array(X2), np.array(X), 'same result with the verbose argument', rtol=1e-9)
    t.ok(sol2['success'] == sol['success'], 'same outcome with the verbose argument')
    if sol['success']:
        X = np.array(X)
        Rx, Jx = f.raw(X)
        r0 = np.linalg.norm(f.calls[0][2])
        # largest residual compatible with any of the tolerances that may have stopped the run
        L = max(np.linalg.norm(a[3], 2) for a in f.calls)
        mu = min(np.linalg.eigvalsh(0.5 * (a[3] + a[3].T)).min() for a in f.calls)
        u0 = np.linalg.norm(np.linalg.solve(f.calls[0][3], f.calls[0][2]))
        names = set(cfg['stopping_tol']) | set(cfg['accepting_tol'])
        e0 = L * u0 * u0
        b = 0.0
        for k in names:
            v = cfg[k] if cfg.get(k) is not None else 1e-6 * c['n']
            b = max(b, {'xtol': v * L, 'rtol': v, 'rtol_rel': v * r0, 'xtol_rel': v * u0 * L,
                        'etol': np.sqrt(v * L), 'etol_rel': np.sqrt(v * e0 * L)}[k])
        if not any(k.startswith('e') for k in names):
            t.ok(np.linalg.norm(Rx) <= 10 * (L / max(mu, 0.05)) * b + 1e-9, 'residual at the returned point',
                 r=np.linalg.norm(Rx), bound=b)
            t.label('checked')
        t.nontrivial(n1 >= 3)
    t.label('success' if sol['success'] else 'failed', 'q%d' % q, 'ls%d' % (ls > 0))


@st.composite
def ls_stop_case(draw):
    c = draw(prob())
    c['cfg'] = draw(config(ls=True, reform=(1, 1)))
    c['steep'] = draw(st.sampled_from([0.0, 0.0, 2.0, 6.0]))
    return c


class Steep(Fun):
    """The monotone problem seen through a saturating function (full Newton steps overshoot)."""

    def __init__(self, p):
        super().__init__(p)
        self.g = p['steep']

    def raw(self, x):
        R, J = super().raw(x)
        if not self.g:
            return R, J
        return np.arctan(self.g * R), (self.g / (1 + (self.g * R) ** 2))[:, None] * J


@clause(ls_stop_case, quick=800, shards=2, rule='a step was shortened before the last one')
def line_search_stopping(c, t):
    """With line search the tolerances are those of the full Newton step and of the residual at the iterate; shortening
    a step never counts as convergence."""
    cfg = c['cfg']
    f = Steep(c)
    (X, R, J, sol), _ = solve(make(cfg), f, arr(c['x0']))
    main = [a for a in f.calls if a[1]]
    t.ok(sol['njev'] == len(main) and len(main) <= cfg['max_steps'], 'Jacobian evaluations', got=sol['njev'])
    tol = {k: cfg.get(k) for k in TOLS}
    if tol['xtol'] is None:
        tol['xtol'] = 1e-6 * c['n']
    xs = [a[0] for a in main] + [np.array(X)]
    e0, short = np.inf, False
    for k, (x, _, Rk, Jk, _) in enumerate(main):
        last = k == len(main) - 1
        cn = np.linalg.cond(Jk)
        d = -np.linalg.solve(Jk, Rk)
        if cn > 1e8 or not np.isfinite(d).all() or np.abs(x).max() > 1e6:
            t.skip('ill-conditioned step')
        real = xs[k + 1] - x
        nd = np.linalg.norm(d)
        if nd > 1e-9 * (1 + np.abs(x).max()):
            al = real @ d / nd ** 2
            t.close(real, al * d, 'step along the Newton direction', rtol=1e-6 * cn, atol=1e-13 * cn * (1 + np.abs(x).max()))
            t.ok(0 < al <= 1 + 1e-5 * cn, 'step fraction', alpha=al)
            short = short or (al < 0.9 and not last)
        r, u = np.linalg.norm(Rk), nd
        e = Rk @ (x - xs[k - 1]) if k else np.inf
        if k == 0:
            r0, u0 = r, u
        if k == 1:
            e0 = abs(e)
        m = measures(k, r, u, e, r0, u0, e0)
        # rounding of each measure (iterates and residuals carry about 1e-13 of their size)
        nx, nr = 1e-12 * cn * (1 + np.abs(x).max()), 1e-12 * (1 + np.linalg.norm(Jk))
        ps = np.linalg.norm(x - xs[k - 1]) if k else 0.0
        ne = nr * ps + r * 1e-12
        noise = dict(xtol=nx, xtol_rel=nx / u0, rtol=nr, rtol_rel=nr / r0, etol=ne, etol_rel=ne / e0 if e0 else np.inf)
        sat, amb = met(cfg['stopping_tol'], m, tol)
        close = lambda names: any(abs(m[n_] - tol[n_]) < 2 * noise[n_] for n_ in names if np.isfinite(m[n_]))
        if amb or close(cfg['stopping_tol']):
            t.skip('tolerance comparison within rounding')
        if sat:
            t.ok(last, 'continued although a stopping tolerance is met', step=k, measures=m, tol=tol)
            t.ok(bool(sol['success']), 'success not reported', measures=m, tol=tol)
        elif last:
            t.ok(len(main) == cfg['max_steps'], 'stopped without meeting a stopping tolerance', step=k, measures=m, tol=tol)
            acc, amb = met(cfg['accepting_tol'], m, tol)
            if amb or close(cfg['accepting_tol']):
                t.skip('tolerance comparison within rounding')
            t.ok(bool(sol['success']) == acc, 'success at the iteration limit', measures=m, tol=tol)
    t.label('success' if sol['success'] else 'failed', 'short' if short else 'full')
    t.nontrivial(short)


@st.composite
def nan_case(draw):
    c = draw(prob())
    c['cfg'] = draw(config(ls=draw(st.integers(0, 2)) == 0))
    c['k'] = draw(st.integers(0, 6))
    c['what'] = draw(st.sampled_from(['R', 'J']))
    return c


@clause(nan_case, quick=800, shards=2, rule='a NaN was evaluated')
def nan_never_converges(c, t):
    """Fault injection: NaN residual or Jacobian from the k-th evaluation on is never reported as converged."""
    f = Fun(c, nan_after=c['k'], nan_what=c['what'])
    s = make(c['cfg'])
    before = copy.deepcopy(s.config)
    (X, R, J, sol), _ = solve(s, f, arr(c['x0']))
    t.ok(s.config == before, 'configuration changed by nsolve', before=before, after=s.config)
    bad = [a for a in f.calls if a[4]]
    if not bad:
        t.skip('finished before the fault')
    ls = c['cfg']['line_search_iters'] > 0
    main_bad = not ls or bad[0][1]
    if c['what'] == 'J' and not any(a[1] for a in bad):
        main_bad = True       # gradient-free evaluations give NaN residuals as well
    if main_bad and not ls:
        t.ok(not sol['success'], 'success after a NaN', calls=len(f.calls), k=c['k'])
        t.ok(len(bad) == 1, 'continued after a NaN', n=len(bad))
    elif sol['success']:
        # the fault hit a line search evaluation: the solver may still stop on the step, but not at a NaN point
        t.ok(np.all(np.isfinite(np.array(X))), 'success at a non-finite point')
    t.label(c['what'], 'ls' if ls else 'no-ls', 'k%d' % c['k'])
    t.nontrivial(True)


@st.composite
def seq_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        o = dict(p=draw(prob(3)), xtol=draw(st.sampled_from([None, None, 1e-2, 1e-9])),
                 edit=draw(st.sampled_from([None, None, {'xtol': 1e-5}, {'xtol': None}, {'max_steps': 3},
                                            {'reform_freq': 2}, {'rtol': 1e-6, 'stopping_tol': ['rtol']},
                                            {'stopping_tol': ['xtol']}])),
                 nan=draw(st.integers(0, 5)) == 0,
                 fail=draw(st.sampled_from([None] * 6 + [0, 1, 2, 4])))
        ops.append(o)
    return dict(cfg=draw(config(ls=draw(st.booleans()))), ops=ops, origin=draw(st.sampled_from(['own', 'default', 'shared'])))


@clause(seq_case, quick=500, shards=2, rule='a solve with its own tolerance followed by another solve')
def call_sequences(c, t):
    """Every solve of a sequence on one solver equals the same solve on a fresh solver with the same settings."""
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    user = dict(copy.deepcopy(c['cfg']), verbose=False)
    given = copy.deepcopy(user)
    if c['origin'] == 'default':            # two solvers from the defaults, one of them edited
        s, twin = NonlinearSolverOMP(), NonlinearSolverOMP()
        s.edit_config(copy.deepcopy(user))
    elif c['origin'] == 'shared':           # two solvers from the same settings of the user
        s, twin = NonlinearSolverOMP(config=user), NonlinearSolverOMP(config=user)
    else:
        s, twin = make(c['cfg']), None
    p0 = c['ops'][0]['p']
    if twin is not None:
        alone, _ = solve(NonlinearSolverOMP(config=dict(copy.deepcopy(user) if c['origin'] == 'shared' else {})), Fun(p0),
                         arr(p0['x0']))
    cur = copy.deepcopy(s.config)
    own = False
    for i, o in enumerate(c['ops']):
        if o['edit']:
            s.edit_config(copy.deepcopy(o['edit']))
            cur.update(copy.deepcopy(o['edit']))
        t.ok(s.config == cur, 'configuration before call %d' % i, got=s.config, want=cur)
        kw = {} if o['xtol'] is None else dict(xtol=o['xtol'])
        if o['fail'] is not None:
            # the user's function raises (or the user interrupts) in the middle of the solve
            try:
                solve(s, Raising(o['p'], o['fail']), arr(o['p']['x0']), **kw)
            except Stop:
                t.label('raised')
                own = own or o['xtol'] is not None
            t.ok(s.config == cur, 'configuration after an exception in call %d' % i, got=s.config, want=cur)
        na = 1 if o['nan'] else None
        f, g = Fun(o['p'], na), Fun(o['p'], na)
        (X, R, J, sol), _ = solve(s, f, arr(o['p']['x0']), **kw)
        (X2, R2, J2, sol2), _ = solve(make(cur), g, arr(o['p']['x0']), **kw)
        t.equal(np.array(X), np.array(X2), 'solution of call %d' % i, rtol=1e-9)
        t.ok({k: sol[k] for k in ('success', 'nfev', 'njev')} == {k: sol2[k] for k in ('success', 'nfev', 'njev')},
             'outcome of call %d' % i, got=sol, want=sol2)
        t.ok(s.config == cur, 'configuration after call %d' % i, got=s.config, want=cur)
        t.nontrivial(own)
        own = own or o['xtol'] is not None
    t.label('origin: ' + c['origin'])
    if twin is not None:
        t.ok(user == given, 'settings given by the user modified', got=user, want=given)
        (X, R, J, sol), _ = solve(twin, Fun(p0), arr(p0['x0']))
        t.equal(np.array(X), np.array(alone[0]), 'solution of a second solver', rtol=1e-9)
        t.ok({k: sol[k] for k in ('success', 'nfev', 'njev')} == {k: alone[3][k] for k in ('success', 'nfev', 'njev')},
             'a second solver is affected by the first', got=sol, want=alone[3])
    d = NonlinearSolverOMP()
    t.ok(d.config['xtol'] is None and d.config['stopping_tol'] == ['xtol'] and d.config['max_steps'] == 20
         and d.config['accepting_tol'] == [] and d.config['reform_freq'] == 1, 'defaults of a new solver changed',
         got=d.config)


@st.composite
def ls_case(draw):
    c = draw(prob())
    c['cfg'] = draw(config(ls=True))
    c['d'] = draw(gen.vec(c['n'], 4.0))
    c['newton'] = draw(st.booleans())
    c['stretch'] = draw(gen.num(0.5, 4))
    return c


@clause(ls_case, quick=800, shards=2, rule='the projected residual changes sign along the step')
def line_search(c, t):
    """Line search: step fraction in (0, 1], consistent returned residual and brackets, sign and tolerance rules."""
    f = Fun(c)
    s = make(c['cfg'])
    x = arr(c['x0'])
    R0, J0 = f.raw(x)
    d = -np.linalg.solve(J0, R0) * c['stretch'] if c['newton'] else arr(c['d'])
    if np.abs(d).max() < 1e-6 or abs(d @ R0) < 1e-9:
        t.skip('no direction')
    G = (lambda a: d @ f.raw(x + a * d)[0])
    ins = (x.copy(), R0.copy(), d.copy())
    with contextlib.redirect_stdout(io.StringIO()):
        a, sol = s.line_search(f, x, R0, d)
    for p, q, n in zip(ins, (x, R0, d), ('X', 'Rx', 'deltaX')):
        t.same(q, p, n + ' modified')
    a = float(a)
    it = c['cfg']['line_search_iters']
    t.ok(sol['nfev'] == len(f.calls), 'nfev', got=sol['nfev'], calls=len(f.calls))
    t.ok(len(f.calls) <= it + 1, 'evaluations', n=len(f.calls), iters=it)
    t.ok(not any(g for _, g, _, _, _ in f.calls), 'gradients requested')
    t.ok(0 < a <= 1, 'step fraction', alpha=a)
    G0, G1, Ga = d @ R0, G(1.0), G(a)
    if abs(G1) < 1e-9 * abs(G0):
        t.skip('sign within rounding')
    if G1 * G0 > 0:
        t.ok(a == 1.0, 'no sign change: the full step', alpha=a)
        t.ok(len(f.calls) == 1, 'no more evaluations than needed')
    else:
        pts = sorted(set([0.0, 1.0] + [float((q[0] - x) @ d / (d @ d)) for q in f.calls]))
        lo = max(p for p in pts if p == 0 or G(p) * G0 > 0)
        if c['cfg']['line_search_same_sign']:
            if any(p > 0 and G(p) * G0 > 0 for p in pts):
                t.ok(Ga * G0 > 0, 'a step keeping the sign was available', alpha=a, Ga=Ga, G0=G0)
                t.close(a, lo, 'the largest tried step keeping the sign', rtol=1e-9)
        elif abs(G1) < c['cfg']['line_search_tol'] * abs(G0) * (1 - 1e-9):
            t.ok(a == 1.0, 'full step within tolerance', alpha=a)
        best = min(abs(G(p)) for p in pts)
        if len(f.calls) < it + 1:                     # stopped before the limit: on the tolerance
            lim = c['cfg']['line_search_tol'] * abs(G0) * (1 + 1e-9)
            t.ok(abs(Ga) <= lim or best <= lim, 'stopped early without meeting the tolerance', Ga=Ga, G0=G0)
        t.nontrivial(True)
        t.label('sign-change')
    t.close(np.array(sol['R(alpha)']), f.raw(x + a * d)[0], 'returned residual belongs to the step', rtol=1e-10,
            atol=1e-12)
    t.label('same-sign' if c['cfg']['line_search_same_sign'] else 'any-sign')
