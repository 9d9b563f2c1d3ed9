"""C17 Shooting residual and stability follow the flow of the ODE."""
import numpy as np
import scipy.linalg as sl
from scipy.integrate import solve_ivp
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr

TYPES = ('cubic', 'quintic', 'genpoly', 'iwanbb', 'unispring', 'cubdamp')


@st.composite
def case(draw, nf=(0, 3), types=TYPES):
    N = draw(st.integers(1, 2))
    s = draw(systems.system(types, nf=nf, N=N))
    for f in s['forces']:                      # moderate nonlinearity: resolved by the fixed largest step
        f['Q'], f['T'] = (0.5 * arr(f['Q'])).tolist(), (0.5 * arr(f['T'])).tolist()
    M, C, K = systems.mats(s)
    wmax = np.sqrt(sl.eigh(K, M, eigvals_only=True)[-1])
    w = float(np.round(wmax * draw(gen.num(0.4, 2.0)), 6))
    return dict(s=s, w=w, x=draw(gen.vec(2 * N, 1.0)), Fl=draw(gen.vec(2 * N, 1.0)),
                Nt=draw(st.sampled_from([64, 128, 128])), seed=draw(st.integers(0, 9999)))


def rhs(c, w=None):
    s = c['s']
    M, C, K = systems.mats(s)
    Mi = np.linalg.inv(M)
    N, Fl = s['N'], arr(c['Fl'])
    fs = [(f, arr(f['Q']), arr(f['T'])) for f in s['forces']]

    def g(tm, y, w):
        u, v = y[:N], y[N:]
        r = Fl[:N] * np.cos(w * tm) + Fl[N:] * np.sin(w * tm) - C @ v - K @ u
        for f, Q, T in fs:
            r = r - T @ ref.law_inst(f, (Q @ u)[None, :], (Q @ v)[None, :])[0]
        return np.hstack((v, Mi @ r))
    return g


def flow(c, x, w, Nt=None, rtol=1e-9):
    """Accurate end state after one forcing period (None if it runs away)."""
    g = rhs(c)
    T = 2 * np.pi / w
    te = None if Nt is None else np.linspace(0, T, Nt + 1)
    ev = (lambda tm, y: np.max(np.abs(y)) - 20.0)
    ev.terminal = True
    r = solve_ivp(lambda tm, y: g(tm, y, w), (0, T), x, method='DOP853', rtol=rtol, atol=1e-11, max_step=T / 40,
                  t_eval=te, events=ev)
    if r.status != 0:
        return None
    return r.y[:, -1] if Nt is None else r.y


def resolved(c, Y, w, t):
    """Skip motions whose instantaneous frequency is not resolved by the largest integrator step."""
    if Y is None or np.abs(Y).max() > 6:
        t.skip('runs away')
    g, N = rhs(c), c['s']['N']
    e, m = 1e-4, 0.0
    for y in Y.T[::2]:
        for k in range(2 * N):
            d = np.zeros(2 * N)
            d[k] = e
            D = np.abs((g(0.0, y + d, w) - g(0.0, y - d, w))[N:]).sum() / (2 * e)
            m = max(m, np.sqrt(D) if k < N else D)
    if m * 2 * np.pi / w / c['Nt'] > 0.25:
        t.skip('not resolved by the steps')


def smooth(c):
    return all(f['type'] not in ('unispring', 'iwanbb') for f in c['s']['forces'])


def labels(c, t):
    t.label('nf%d' % len(c['s']['forces']), 'N%d' % c['s']['N'], *[f['type'] for f in c['s']['forces']])
    t.nontrivial(np.abs(c['Fl']).max() > 0)


@clause(case, quick=260, shards=4, rule='forced')
def end_state(c, t):
    """Residual = state after one period minus initial state; time series; Jacobians consistent with the flow."""
    s, N, w = c['s'], c['s']['N'], c['w']
    x = arr(c['x'])
    Y = flow(c, x, w, c['Nt'])
    resolved(c, Y, w, t)
    vs = systems.build(s)
    Uw, Fl = np.hstack((x, w)), arr(c['Fl'])
    ins = (Uw.copy(), Fl.copy())
    out = vs.shooting_res(Uw, Fl, Nt=c['Nt'], return_aux=True)
    t.same(Uw, ins[0], 'Uw modified')
    t.same(Fl, ins[1], 'Fl modified')
    R, J, dw, aux = out
    n = 2 * N
    t.ok(np.shape(R) == (n,) and np.shape(J) == (n, n) and np.shape(dw) == (n,), 'shapes')
    e = 1e-4

    def D(d, dww=0.0):
        a, b = flow(c, x + e * d, w + e * dww), flow(c, x - e * d, w - e * dww)
        a2, b2 = flow(c, x + 2 * e * d, w + 2 * e * dww), flow(c, x - 2 * e * d, w - 2 * e * dww)
        if any(q is None for q in (a, b, a2, b2)):
            t.skip('runs away')
        g1, g2 = (a - b) / (2 * e), (a2 - b2) / (4 * e)
        return g1, np.max(np.abs(g1 - g2))
    I = np.eye(n)
    cols = [D(I[k]) for k in range(n)]
    P = np.array([q[0] for q in cols]).T
    stiff = 1 + np.abs(P).max()
    if stiff > 30:
        t.skip('strongly unstable flow')
    # integrator accuracy: default relative tolerance 1e-3 per step, bounded by the maximum step
    tol = (1e-4 if smooth(c) else 1e-3) * stiff * (1 + np.abs(Y).max())
    t.close(R, Y[:, -1] - x, 'one period map', rtol=0, atol=tol)
    t.close(aux[1], Y[:N], 'displacement history', rtol=0, atol=tol)
    t.close(aux[2], Y[N:], 'velocity history', rtol=0, atol=tol)
    t.close(np.array(aux[0]) - np.eye(n), J, 'monodromy matrix is the Jacobian plus identity', rtol=1e-12, atol=1e-13)
    gap = max(q[1] for q in cols)
    slack = wslack = 0.0
    if not smooth(c):
        # stiffness kinks (contact, Iwan backbone at zero) limit the order of the integrator: its own step dependence
        J2, dw2 = vs.shooting_res(Uw, Fl, Nt=2 * c['Nt'])[1:3]
        slack, wslack = 4 * np.abs(J2 - J).max(), 4 * np.abs(dw2 - dw).max()
        if slack > 0.3 * stiff:
            t.skip('kinks not resolved by the steps')
    if gap < 1e-2 * stiff:
        t.close(J, P - np.eye(n), 'dR/dx', rtol=0, atol=(2e-3 if smooth(c) else 1e-2) * stiff * (1 + np.abs(Y).max())
                + 2 * gap + slack)
        gw, ggap = D(np.zeros(n), 1.0)
        t.close(dw, gw, 'dR/dw', rtol=0, atol=(2e-3 if smooth(c) else 1e-2) * (stiff * (1 + np.abs(Y).max())
                                                                                 + np.abs(gw).max()) + 2 * ggap + wslack)
        t.label('gradients')
    R2 = vs.shooting_res(Uw, Fl, Nt=c['Nt'])
    t.ok(len(R2) == 3, 'no aux unless asked')
    t.equal(np.array(R2[0]), np.array(R), 'repeatable')
    t.kept(lambda z: vs.shooting_res(z, Fl, Nt=c['Nt']), Uw, 1.02 * Uw + .002, 'residual')
    labels(c, t)


def linA(c):
    M, C, K = systems.mats(c['s'])
    N = len(M)
    return np.block([[np.zeros((N, N)), np.eye(N)], [-np.linalg.solve(M, K), -np.linalg.solve(M, C)]])


@clause(lambda: case(nf=(0, 0)), quick=300, shards=2, rule='forced')
def linear_exponential(c, t):
    """Linear systems: matrix exponential of the state (with the harmonic forcing as extra states)."""
    s, N, w = c['s'], c['s']['N'], c['w']
    x, Fl = arr(c['x']), arr(c['Fl'])
    A = linA(c)
    Mi = np.linalg.inv(systems.mats(s)[0])
    B = np.zeros((2 * N + 2, 2 * N + 2))
    B[:2 * N, :2 * N] = A
    B[N:2 * N, 2 * N] = Mi @ Fl[:N]
    B[N:2 * N, 2 * N + 1] = Mi @ Fl[N:]
    B[2 * N, 2 * N + 1], B[2 * N + 1, 2 * N] = -w, w
    E = sl.expm(B * 2 * np.pi / w)
    y = (E @ np.hstack((x, 1.0, 0.0)))[:2 * N]
    R, J, dw = systems.build(s).shooting_res(np.hstack((x, w)), Fl, Nt=c['Nt'])
    sc = (1 + np.abs(E).max()) * (1 + np.abs(x).max() + np.abs(Fl).max())
    t.close(R, y - x, 'one period map', rtol=0, atol=5e-5 * sc)
    t.close(J, E[:2 * N, :2 * N] - np.eye(2 * N), 'dR/dx', rtol=0, atol=5e-5 * sc)
    labels(c, t)


def newton(f, x, tol=1e-11):
    for _ in range(25):
        R, Jm = f(x)
        if not np.all(np.isfinite(R)):
            return None
        if np.abs(R).max() < tol:
            return x
        x = x - np.linalg.solve(Jm, R)
    return None


@clause(lambda: case(nf=(0, 2), types=('cubic', 'quintic', 'cubdamp')), quick=120, shards=2, rule='nonlinear periodic solution')
def periodic_solutions(c, t):
    """Converged harmonic balance solutions are fixed points of the shooting map."""
    s, N, w = c['s'], c['s']['N'], c['w']
    h = np.arange(0, 10)
    vs = systems.build(s)
    Fl = np.zeros((19, N))
    Fl[1:3] = 0.5 * arr(c['Fl']).reshape(2, N)
    load = Fl.reshape(-1)

    def f(U):
        o = vs.hbm_res(np.hstack((U, w)), load, h, Nt=64)
        return o[0], o[1]
    J0 = f(np.zeros(load.size))[1]
    if np.linalg.cond(J0) > 1e6:
        t.skip('undamped resonance')
    U = newton(f, np.linalg.solve(J0, load))
    if U is None:
        t.skip('no solution')
    X = U.reshape(19, N)
    if np.abs(X[-4:]).max() > 1e-6 * np.abs(X).max() or np.abs(X).max() > 5:
        t.skip('harmonic truncation')
    k = np.array([0] + [m for m in range(1, 10) for _ in (0, 1)], dtype=float)
    x0 = X[0] + X[1::2].sum(axis=0)
    v0 = w * (k[2::2, None] * X[2::2]).sum(axis=0)
    R = vs.shooting_res(np.hstack((x0, v0, w)), 0.5 * arr(c['Fl']), Nt=128)
    J = R[1]
    t.close(R[0], np.zeros(2 * N), 'shooting residual at the periodic solution', rtol=0,
            atol=2e-4 * (1 + np.abs(J).max()) * (1e-3 + np.abs(X).max() * (1 + w)))
    labels(c, t)
    t.nontrivial(len(s['forces']) > 0 and np.abs(X[5:7]).max() > 1e-4)


@st.composite
def stab_case(draw):
    c = draw(case(nf=(0, 1), types=('cubic', 'genpoly', 'cubdamp')))
    N = c['s']['N']
    c['pts'] = [dict(x=draw(gen.vec(2 * N, 1.0)), wr=draw(gen.num(0.8, 1.25))) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        c['s'].pop('C', None)
        c['s']['ab'] = [draw(gen.num(-0.3, 0.3)), draw(gen.num(-0.1, 0.1))]
    return c


@clause(stab_case, quick=200, shards=2, rule='clearly stable or unstable')
def stability(c, t):
    """Reported multipliers (largest modulus of the monodromy eigenvalues), stability flags and histories per point."""
    from tmdsimpy.postprocess import shooting
    s, N = c['s'], c['s']['N']
    pts = np.array([p['x'] + [p['wr'] * c['w']] for p in c['pts']])
    ok = []
    for p in pts:
        Y = flow(c, p[:-1], p[-1], c['Nt'])
        resolved(c, Y, p[-1], t)
        ok.append(Y)
    P0 = pts.copy()
    yt, vt, stable, mx = shooting.time_stability(systems.build(s), pts, arr(c['Fl']), Nt=c['Nt'])
    t.same(pts, P0, 'points modified')
    t.ok(yt.shape == (N, c['Nt'] + 1, len(pts)) and vt.shape == yt.shape and np.shape(stable) == (len(pts),)
         and np.shape(mx) == (len(pts),), 'shapes')
    e = 1e-5
    for i, (p, Y) in enumerate(zip(pts, ok)):
        if s['forces']:
            cols = [[flow(c, p[:-1] + sg * e * I, p[-1]) for sg in (1, -1)] for I in np.eye(2 * N)]
            if any(q is None for a in cols for q in a):
                t.skip('runs away')
            P = np.array([(a - b) / (2 * e) for a, b in cols]).T
        else:
            P = sl.expm(linA(c) * 2 * np.pi / p[-1])
        m = np.abs(np.linalg.eigvals(P)).max()
        stiff = 1 + np.abs(P).max()
        if stiff > 30:
            t.skip('strongly unstable flow')
        tol = (2e-3 if s['forces'] else 2e-4) * stiff * (1 + np.abs(Y).max())
        # a double eigenvalue moves with the square root of the perturbation
        t.close(mx[i], m, 'largest Floquet multiplier', rtol=0, atol=tol + np.sqrt(tol * stiff) * 0.5)
        t.ok(bool(stable[i]) == bool(mx[i] <= 1.0), 'stability flag', flag=stable[i], mult=mx[i])
        t.close(yt[:, :, i], Y[:N], 'displacement history', rtol=0, atol=tol)
        t.close(vt[:, :, i], Y[N:], 'velocity history', rtol=0, atol=tol)
        t.label('stable' if m <= 1 else 'unstable')
        t.nontrivial(abs(m - 1) > 0.01)
