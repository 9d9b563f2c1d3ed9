"""Continuation: problems with known branches, a recording / failing solver, and a reference model of the run."""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
from pbt import gen
from pbt.core import arr, Violation


# ---------------------------------------------------------------- problems
@st.composite
def problem(draw, kinds=('graph', 'fold', 'loop')):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(1, 4))
    return dict(kind=kind, n=n, B=draw(gen.spd(n, 0.7)), S=draw(gen.mat(n, n, 0.4)), g=draw(gen.mat(n, 4, 1.0)),
                q=draw(st.sampled_from([0.0, 0.3, 1.0])), a=draw(gen.num(0.3, 2.5, 40)), k=draw(gen.num(0.7, 3, 40)),
                s0=draw(gen.num(-3, 3, 200)))


class Prob:
    """fun(Xlam) -> R (n), dR/dX, dR/dlam with the branch s -> (X(s), lam(s)) (unknown 0 carries the branch for fold
    and loop problems; the other unknowns follow functions of it)."""

    def __init__(self, p, scale=None):
        self.p, self.n = p, p['n']
        S = arr(p['S'])
        self.B = arr(p['B']) + (S - S.T)
        g = arr(p['g'])
        g[:, 0] += np.where(g[:, 0] >= 0, 0.7, -0.7)
        self.g, self.a, self.k, self.q = g, p['a'], p['k'], p['q']
        self.scale = np.ones(self.n + 1) if scale is None else np.asarray(scale, dtype=float)
        self.calls = 0

    def gf(self, s):
        g = self.g
        return (g[:, 0] + g[:, 1] * s + g[:, 2] * np.sin(g[:, 3] + s),
                g[:, 1] + g[:, 2] * np.cos(g[:, 3] + s))

    def branch(self, s):
        """point and derivative on the branch (unscaled variables)"""
        kind = self.p['kind']
        if kind == 'graph':
            X, dX = self.gf(s)
            return np.r_[X, s], np.r_[dX, 1.0]
        if kind == 'fold':
            X, dX = self.gf(s)
            X[0], dX[0] = s + 4.0, 1.0
            return (np.r_[X, s - self.a * np.sin(self.k * s) / self.k],
                    np.r_[dX, 1.0 - self.a * np.cos(self.k * s)])
        X, dX = self.gf(np.cos(s))
        dX = -dX * np.sin(s)
        X[0], dX[0] = 3.0 + self.a * np.cos(s), -self.a * np.sin(s)
        return np.r_[X, 5.0 + self.a * np.sin(s)], np.r_[dX, self.a * np.cos(s)]

    def param(self, P):
        """branch parameter of a point on the branch (modulo 2 pi for loops)"""
        P = P * self.scale
        kind = self.p['kind']
        if kind == 'graph':
            return P[-1]
        if kind == 'fold':
            return P[0] - 4.0
        return np.arctan2(P[-1] - 5.0, P[0] - 3.0)

    def raw(self, P):
        P = P * self.scale
        n, X, lam, kind = self.n, P[:-1], P[-1], self.p['kind']
        J = np.zeros((n, n + 1))
        if kind == 'graph':
            G, dG = self.gf(lam)
            e = X - G
            r = e + self.q * e ** 3
            w = 1 + 3 * self.q * e ** 2
            J[:, :n] = np.diag(w)
            J[:, n] = -w * dG
        else:
            s = X[0] - 4.0 if kind == 'fold' else (X[0] - 3.0) / self.a
            G, dG = self.gf(s)
            if kind == 'loop':
                dG = dG / self.a
            e = X - G
            r = e + self.q * e ** 3
            w = 1 + 3 * self.q * e ** 2
            J[:, :n] = np.diag(w)
            J[:, 0] -= w * dG
            if kind == 'fold':
                r[0] = lam - (s - self.a * np.sin(self.k * s) / self.k)
                J[0, :] = 0
                J[0, 0] = -(1.0 - self.a * np.cos(self.k * s))
                J[0, n] = 1.0
            else:
                r[0] = ((X[0] - 3.0) ** 2 + (lam - 5.0) ** 2 - self.a ** 2) / self.a
                J[0, :] = 0
                J[0, 0] = 2 * (X[0] - 3.0) / self.a
                J[0, n] = 2 * (lam - 5.0) / self.a
        return self.B @ r, (self.B @ J) * self.scale

    def __call__(self, P, calc_grad=True):
        self.calls += 1
        R, J = self.raw(np.array(P, dtype=float))
        if not calc_grad:
            return (R,)
        return R, J[:, :-1], J[:, -1]


# ---------------------------------------------------------------- configuration
@st.composite
def config(draw, small=False, maxsteps=(1, 2, 3, 6, 12, 25, 40)):
    ds0 = draw(gen.logn(0.005, 0.05 if small else 0.4, 40))
    c = dict(_ds0=ds0, ds0=ds0, dsmin=ds0 / draw(st.sampled_from([1.0, 2.0, 3.0, 5.0, 16.0])),
             dsmax=ds0 * draw(st.sampled_from([1.0, 1.5, 3.0, 5.0] if not small else [1.0, 1.5])),
             FracLam=draw(st.sampled_from([0.5, 0.5, 0.1, 0.9, 0.02, 1.0, 0.0])),
             corrector=draw(st.sampled_from(['Ortho', 'Pseudo', 'ortho', 'PSEUDO'])),
             MaxSteps=draw(st.sampled_from(maxsteps)),
             TargetNfev=draw(st.sampled_from([20, 20, 4, 8, 50])),
             MaxIncrease=draw(st.sampled_from([1.2, 1.2, 2.0, 1.0])),
             DynamicCtoP=draw(st.sampled_from([False, False, True])),
             verbose=draw(st.sampled_from([-1, -1, 0, 1, 3, 100])),
             nsolve_verbose=draw(st.sampled_from([False, False, True])),
             xtol=draw(st.sampled_from([1e-8, 1e-10, None])))
    if draw(st.integers(0, 2)) == 0:
        c['FracLamList'] = draw(st.lists(st.sampled_from([0.5, 0.1, 0.9, 1.0]), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        c['backtrackStop'] = draw(st.sampled_from([0.01, 0.1, 0.5]))
    if draw(st.integers(0, 3)) == 0:
        for k in draw(st.lists(st.sampled_from(['dsmin', 'dsmax', 'FracLam', 'corrector', 'TargetNfev', 'MaxIncrease',
                                                'DynamicCtoP', 'nsolve_verbose', 'xtol', 'ds0']),
                               max_size=3, unique=True)):
            if k == 'ds0':
                c['dsmin'], c['dsmax'] = c['ds0'] / 5, c['ds0'] * 5
            c.pop(k, None)
    return c


DEFAULTS = dict(FracLam=0.5, MaxSteps=500, TargetNfev=20, DynamicCtoP=False, verbose=100, xtol=None,
                corrector='Ortho', FracLamList=[], backtrackStop=np.inf, MaxIncrease=1.2, nsolve_verbose=False)


def full_config(cfg, ds0_arg):
    c = dict(DEFAULTS)
    c.update(ds0=ds0_arg, dsmax=5 * ds0_arg, dsmin=ds0_arg / 5)
    c.update(cfg)
    return c


@st.composite
def run_case(draw, kinds=('graph', 'fold', 'loop'), faults=True, small=False, **k):
    p = draw(problem(kinds))
    c = dict(p=p, cfg=draw(config(small=small, **k)), back=draw(st.booleans()),
             span=draw(st.sampled_from([0.05, 0.3, 1.0, 3.0])), noise=draw(gen.vec(p['n'], 0.05)),
             CtoP=draw(st.sampled_from([None, None, 'v'])), RPtoC=draw(st.sampled_from([None, None, 's', 'v'])),
             Cv=[2.0 ** draw(st.integers(-3, 3)) * draw(st.sampled_from([1.0, 1.0, -1.0, 1.3]))
                 for _ in range(p['n'] + 1)],
             Rv=[draw(st.sampled_from([1.0, 0.3, 4.0])) for _ in range(p['n'] + 1)],
             omp=draw(st.sampled_from([False, False, True])), faults=[], nfev=[])
    d0 = c['cfg'].pop('_ds0')
    c['ds0_arg'] = d0 * draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])) if 'ds0' in c['cfg'] else d0
    if faults and draw(st.integers(0, 3)) > 0:
        c['faults'] = draw(st.lists(st.tuples(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, 30),
                                              st.integers(1, 12), st.sampled_from(['far', 'near', 'nan'])),
                                    min_size=1, max_size=3))
        c['faults'] = [list(f) for f in c['faults']]
    if draw(st.booleans()):
        c['nfev'] = draw(st.lists(st.sampled_from([1, 2, 5, 10, 20, 40, 200]), min_size=1, max_size=12))
    return c


# ---------------------------------------------------------------- recording solver
def rec_solver(omp, faults, nfev):
    if omp:
        from tmdsimpy.jax.solvers import NonlinearSolverOMP as Base
        kw = dict(config=dict(verbose=False, max_steps=25, reform_freq=1, xtol=1e-9, stopping_tol=['xtol'],
                              accepting_tol=[]))
    else:
        from tmdsimpy.solvers import NonlinearSolver as Base
        kw = {}

    class Rec(Base):
        def nsolve(self, fun, X0, *a, **k):
            i = len(self.log)
            e = dict(X0=np.array(X0, dtype=float), kw=dict(k), a=a)
            Rg = fun(np.array(X0, dtype=float))
            e['R0'], e['J0'] = np.array(Rg[0]), np.array(Rg[1])
            self.log.append(e)
            mode = None
            for s, m, what in self.faults:
                if s <= i < s + m:
                    mode = what
            X, R, J, sol = super().nsolve(fun, X0, *a, **k)
            X = np.array(X)
            sol = dict(sol)
            if mode is not None:
                X = {'far': X * 1.7 + 1.0, 'near': X + 1e-2 * (1 + np.abs(X)), 'nan': X * np.nan}[mode]
                sol['success'], sol['message'] = False, 'injected failure'
            elif nfev:
                sol['nfev'] = nfev[i % len(nfev)]
            e.update(X=X.copy(), R=np.array(R), success=bool(sol['success']), nfev=sol['nfev'], injected=mode)
            return X, R, J, sol

    s = Rec(**kw)
    s.log, s.faults = [], faults
    return s


def setup(c, scale=None):
    """Problem, start guess, lam0, lam1 (scaled variables when scale is given)."""
    pr = Prob(c['p'], scale)
    P0, dP0 = pr.branch(c['p']['s0'])
    sgn = -1.0 if c['back'] else 1.0
    lam0 = P0[-1]
    if c['p']['kind'] == 'loop' and not (0.3 < abs(dP0[-1]) / c['p']['a']):
        return None
    if c['p']['kind'] == 'fold' and abs(dP0[-1]) < 0.2:
        return None
    lam1 = lam0 + sgn * c['span']
    x0 = P0.copy()
    x0[:-1] += arr(c['noise'])
    x0[-1] = 123.0                                     # documented as ignored
    sc = pr.scale
    return pr, x0 / sc, lam0 / sc[-1], lam1 / sc[-1], P0 / sc, sgn * np.sign(dP0[-1])


def make(c, cb=None, faults=None, cfg=None, n=None, CtoP='case', ds0_arg=None, RPtoC='case'):
    from tmdsimpy.continuation import Continuation
    cfg = dict(c['cfg'] if cfg is None else cfg)
    if cb is not None:
        cfg['callback'] = cb
    sol = rec_solver(c['omp'], c['faults'] if faults is None else faults, c['nfev'])
    kw = {}
    if isinstance(CtoP, str):
        CtoP = None if c['CtoP'] is None else arr(c['Cv'])
    if isinstance(RPtoC, str):
        RPtoC = None if c['RPtoC'] is None else (2.5 if c['RPtoC'] == 's' else arr(c['Rv']))
    if CtoP is not None:
        kw['CtoP'] = CtoP
    if RPtoC is not None:
        kw['RPtoC'] = RPtoC
    return Continuation(sol, ds0=c['ds0_arg'], config=cfg, **kw), sol, kw, cfg


def execute(ct, pr, x0, lam0, lam1):
    """Run; returns (rows or None, exception or None, printed text)"""
    out = io.StringIO()
    own = []

    def fun(*a, **k):
        res = pr(*a, **k)
        own.extend((v, v.copy()) for v in res if isinstance(v, np.ndarray))
        return res
    with contextlib.redirect_stdout(out):
        try:
            res = ct.continuation(fun, x0, lam0, lam1), None, out
        except AssertionError as e:
            res = None, e, out
    for v, was in own:
        if not np.array_equal(v, was, equal_nan=True):
            raise Violation('the continuation wrote into an array that belongs to the residual function')
    return res


# ---------------------------------------------------------------- reference model of the run
class Fuzzy(Exception):
    pass


def tangent(pr, P, C, b, prevC):
    """Unit tangent (metric c|dX|^2 + b dlam^2) in conditioned space at P, sign left open; plus the metric."""
    J = pr.raw(P)[1] * C
    U, sv, V = np.linalg.svd(J)
    d = V[-1]
    nx = np.linalg.norm(P[:-1] / C[:-1])
    if nx < 1e-3:
        raise Fuzzy('zero vector')
    cc = (1 - b) / nx ** 2
    if len(sv) and sv[-1] < 1e-5 * sv[0]:
        raise Fuzzy('tangent not defined')
    nrm = cc * d[:-1] @ d[:-1] + b * d[-1] ** 2
    if nrm < 1e-10 * (d @ d):
        raise Fuzzy('tangent of zero arc length')
    if abs(d @ prevC) < 1e-4 * np.linalg.norm(prevC):
        raise Fuzzy('orthogonal to the previous direction (documented limitation)')
    return d / np.sqrt(nrm), cc


def dist(P, P0, C, b):
    d = (P - P0) / C
    nx = np.linalg.norm(P0[:-1] / C[:-1])
    return np.sqrt((1 - b) / nx ** 2 * d[:-1] @ d[:-1] + b * d[-1] ** 2)


def walk(c, cfg, pr, log, x0, lam0, lam1, t):
    """Replay the recorded solver calls against the documented run: returns dict(rows, cbs, reason, att).
    att: one entry per corrector call (k-th step, b, ds, d, C, P, ok)."""
    F = full_config(cfg, c['ds0_arg'])
    fl = list(F['FracLamList'])
    if not fl or fl[0] != F['FracLam']:
        fl.insert(0, F['FracLam'])
    C0 = np.ones(pr.n + 1) if c['CtoP'] is None else np.abs(arr(c['Cv']))
    Rv = {None: np.ones(pr.n + 1), 's': 2.5 * np.ones(pr.n + 1), 'v': arr(c['Rv'])}[c['RPtoC']]
    C = C0
    e = log[0]
    t.close(e['X0'], x0[:-1] / C0[:-1], 'initial guess of the first solution', rtol=1e-13)
    t.close(e['R0'], Rv[:-1] * pr.raw(np.r_[x0[:-1], lam0])[0], 'equations of the first solution (fixed at lam0)',
            rtol=1e-12, atol=1e-14)
    for q in log:
        t.ok(q['kw'].get('xtol') == F['xtol'], 'xtol handed to the solver', got=q['kw'], want=F['xtol'])
    m = dict(rows=[], cbs=[], att=[], reason=None, C0=C0)
    if not e['success']:
        m['reason'] = 'initial'
        t.ok(len(log) == 1, 'went on after a failed first solution')
        return m
    direct = np.sign(lam1 - lam0)
    P = np.r_[e['X'] * C0[:-1], lam0]
    prev = P.copy()
    prev[-1] -= direct
    prevC = P - prev
    m['rows'].append(P)
    m['cbs'].append((P, None))
    i, ds, lastd = 1, F['ds0'], None
    while True:
        if len(m['rows']) >= F['MaxSteps']:
            m['reason'] = 'MaxSteps'
            break
        if not direct * P[-1] < direct * lam1:
            m['reason'] = 'target'
            break
        if not direct * P[-1] > direct * lam0 - F['backtrackStop']:
            m['reason'] = 'backtrack'
            break
        if F['DynamicCtoP']:
            C = np.maximum(np.abs(P), C0)
        done = False
        for b in fl:
            d, cc = signed(pr, P, prev, C, b, prevC)
            cosang = abs(d @ prevC) / np.linalg.norm(d) / np.linalg.norm(prevC)
            prevC = d
            while True:
                t.ok(i < len(log), 'run ended although no stopping rule applies (step %d, ds %g)' % (len(m['rows']), ds),
                     lam=P[-1], lam1=lam1)
                e = log[i]
                i += 1
                t.close(e['X0'], P / C + ds * d, 'prediction of step %d (ds=%g, FracLam=%g)' % (len(m['rows']), ds, b),
                        rtol=0, atol=1e-7 * ds * np.abs(d).max() / cosang + 1e-11 * np.abs(P / C).max())
                m['att'].append(dict(step=len(m['rows']), b=b, ds=ds, d=d, C=C, P=P, ok=e['success'], cc=cc,
                                     new=e['X'] * C, e=e))
                if e['success']:
                    done = True
                    break
                if ds > F['dsmin']:
                    ds = max(ds / 2, F['dsmin'])
                else:
                    break
            if done:
                break
        if not done:
            m['reason'] = 'failed'
            m['last'] = d * C
            break
        prev, P = P, e['X'] * C
        m['rows'].append(P)
        m['cbs'].append((P, d * C))
        ds = ds * min(F['TargetNfev'] / e['nfev'], F['MaxIncrease'])
        ds = min(max(ds, F['dsmin']), F['dsmax'])
    t.ok(i == len(log), 'solver called after a stopping rule (%s) applied' % m['reason'], extra=len(log) - i)
    m.update(P=P, prev=prev, prevC=prevC, C=C, b=b if m['att'] else fl[0], F=F)
    return m


def signed(pr, P, prev, C, b, prevC):
    d, cc = tangent(pr, P, C, b, prevC)
    back = (P - prev) / C
    s = cc * d[:-1] @ back[:-1] + b * d[-1] * back[-1]
    n2 = np.sqrt(cc * back[:-1] @ back[:-1] + b * back[-1] ** 2)
    if s == 0:
        s = d @ prevC
    elif abs(s) < 1e-6 * n2:
        raise Fuzzy('sign not defined')
    return d * np.sign(s), cc


def final_dir(pr, m):
    """Direction of the step that would follow the last accepted point (physical)."""
    d, _ = signed(pr, m['P'], m['prev'], m['C'], m['b'], m['prevC'])
    return d * m['C']
