"""C12 Amplitude and phase controlled harmonic balance adds exactly its constraints."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac, check_dir


@st.composite
def case(draw, base=None, **k):
    c = draw(systems.hb_case(must=(1,), **k) if base is None else base)
    c['recov'] = draw(gen.vec(c['s']['N'], 2.0))
    c['order'] = draw(st.integers(0, 2))
    c['ampl'] = draw(gen.num(0.05, 3))
    c['sc'] = draw(gen.vec(2, 2.0))
    return c


def jax_case():
    return case(systems.hb_jax_case())


def unpack(c):
    s, h = c['s'], np.array(c['h'])
    U = systems.motion(c)
    N, h0 = s['N'], int(c['h'][0] == 0)
    X = ref.split(U, N, c['h'])
    rec = jitter(c['recov'], c['seed'] + 1)
    return s, U, arr(c['Fl']), h, h0, X, rec, rec @ X[h0], rec @ X[h0 + 1]


def labels(c, t):
    t.label('order%d' % c['order'], 'h0' if c['h'][0] == 0 else 'no-h0', 'nf%d' % len(c['s']['forces']),
            'N%d' % c['s']['N'])


def jac(A):
    return np.hstack((np.array(A[1]), np.array(A[2]).reshape(-1, 1)))


def judge(c, t, f, x, want, sc, aug, augsc, fd):
    """Residual rows, optional Jacobian and gradient flag of f(x, calc_grad)."""
    s = c['s']
    x0 = x.copy()
    out = f(x)
    t.same(x, x0, 'unknowns modified')
    n, na = want.size, len(aug)
    t.ok(np.shape(out[0]) == (n + na,), 'residual length')
    t.ok(np.shape(out[1]) == (n + na, n + na) and np.shape(out[2]) == (n + na,), 'Jacobian shapes')
    t.close(np.array(out[0])[:n], want, 'equations of motion', rtol=1e-9, atol=1e-13, scale=sc)
    t.close(np.array(out[0])[n:], arr(aug), 'control equations', rtol=1e-11, atol=1e-14, scale=augsc)
    if systems.grad_flag_ok(s):
        o = f(x, calc_grad=False)
        t.ok(len(o) == 1, 'calc_grad=False returns one value')
        t.close(o[0], out[0], 'residual without gradient', rtol=1e-13, atol=1e-14, scale=sc + augsc)
        t.label('no-grad')
    t.kept(f, x, 1.1 * x + .01, 'residual')
    t.nontrivial(np.abs(want).max() > 0)
    if fd:
        check_jac(t, lambda y: f(y)[0], x, jac(out), c['seed'], 'Jacobian', ndir=2, cols=2)
        # the control unknowns and the continuation parameter individually
        for k in range(n, x.size):
            e = np.zeros(x.size)
            e[k] = 1.0
            check_dir(t, lambda y: f(y)[0], x, jac(out), e, 'Jacobian column of unknown %d' % (k - n))
        t.label('fd')


def amp_control(c, t, fd):
    s, U, Fl, h, h0, X, rec, uc, us = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    vs = systems.warm(systems.build(s), s, c)
    w, F, o, N = c['w'], c['sc'][0], c['order'], s['N']
    load = Fl * F
    load[:N * h0] = Fl[:N * h0]
    want, sc = systems.residual(s, U, w, c['h'], c['Nt'], load)
    aug = [w ** (2 * o) * (uc ** 2 + us ** 2) - c['ampl'] ** 2]
    Fl0, rec0 = Fl.copy(), rec.copy()
    judge(c, t, lambda x, **k: vs.hbm_amp_control_res(x, Fl, h, rec, c['ampl'], o, Nt=c['Nt'], **k),
          np.hstack((U, F, w)), want, sc, aug, abs(aug[0]) + 2 * c['ampl'] ** 2, fd)
    t.same(Fl, Fl0, 'Fl modified')
    t.same(rec, rec0, 'recov modified')
    labels(c, t)


def phase_load(Fl, Fc, Fs, N, h0):
    load = np.zeros_like(Fl)
    load[:N * h0] = Fl[:N * h0]
    load[N * h0:N * (h0 + 1)] = Fc * Fl[N * h0:N * (h0 + 1)]
    load[N * (h0 + 1):N * (h0 + 2)] = Fs * Fl[N * h0:N * (h0 + 1)]
    return load


def amp_phase(c, t, fd, dA):
    s, U, Fl, h, h0, X, rec, uc, us = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    vs = systems.warm(systems.build(s), s, c)
    w, (Fc, Fs), o, N = c['w'], c['sc'], c['order'], s['N']
    want, sc = systems.residual(s, U, w, c['h'], c['Nt'], phase_load(Fl, Fc, Fs, N, h0))
    aug = [w ** o * uc - c['ampl'], w ** o * us]
    if dA:
        f = (lambda x, **k: vs.hbm_amp_phase_control_dA_res(x, Fl, h, rec, w, o, Nt=c['Nt'], **k))
        x = np.hstack((U, Fc, Fs, c['ampl']))
    else:
        f = (lambda x, **k: vs.hbm_amp_phase_control_res(x, Fl, h, rec, c['ampl'], o, Nt=c['Nt'], **k))
        x = np.hstack((U, Fc, Fs, w))
    Fl0, rec0 = Fl.copy(), rec.copy()
    judge(c, t, f, x, want, sc, aug, max(map(abs, aug)) + 2 * c['ampl'], fd)
    t.same(Fl, Fl0, 'Fl modified')
    t.same(rec, rec0, 'recov modified')
    labels(c, t)


R = 'non-zero residual'


@clause(case, quick=700, shards=2, rule=R)
def amplitude_control(c, t):
    """HB residual with scaled dynamic load, w^(2 order)*(uc^2 + us^2) - A^2; Jacobians."""
    amp_control(c, t, c['seed'] % 2 == 0)


@clause(case, quick=700, shards=2, rule=R)
def amplitude_phase_control(c, t):
    """HB residual with cos/sin combined first harmonic load, then w^order*uc - A and w^order*us; Jacobians."""
    amp_phase(c, t, c['seed'] % 2 == 0, False)


@clause(case, quick=500, shards=2, rule=R)
def amplitude_phase_control_dA(c, t):
    amp_phase(c, t, c['seed'] % 2 == 0, True)


@clause(jax_case, quick=90, shards=2, rule=R)
def compiled_forces(c, t):
    k = c['seed'] % 3
    amp_control(c, t, True) if k == 0 else amp_phase(c, t, True, k == 1)


def newton(f, x, tol, it=30):
    for _ in range(it):
        R, J = f(x)
        if not np.all(np.isfinite(R)):
            return None
        if np.max(np.abs(R)) < tol:
            return x
        try:
            d = np.linalg.solve(J, R)
        except np.linalg.LinAlgError:
            return None
        n = np.max(np.abs(d))
        x = x - d * min(1.0, 2.0 / n)
    return None


@st.composite
def root_case(draw):
    c = draw(case(types=('cubic', 'quintic', 'cubdamp', 'jenkins', 'iwan4', 'vecjenkins'), nf=(1, 2), maxh=3,
                  damp='ab'))
    c['s']['ab'] = [0.05 + c['s']['ab'][0], 0.02 + c['s']['ab'][1]]
    return c


@clause(root_case, quick=500, shards=3, rule='a nonlinear solution was found and controlled amplitude is not tiny')
def shared_solutions(c, t):
    """A periodic solution of plain HB satisfies the amplitude controlled form at its own amplitude, and, shifted in
    time to zero sine response, both amplitude-phase forms."""
    s, _, Fl, h, h0, _, rec, _, _ = unpack(c)
    N = s['N']
    # first-harmonic cosine (plus static) load, as in the amplitude-phase formulation
    load = phase_load(Fl, 1.0, 0.0, N, h0)
    vs = systems.warm(systems.build(s), s, c)
    Nt = 6 * max(c['h']) + 2
    Nt = max(Nt + Nt % 2, c['Nt'])
    w = c['w']

    def f(U):
        o = vs.hbm_res(np.hstack((U, w)), load, h, Nt=Nt)
        return o[0], o[1]
    U0 = np.linalg.solve(vs.hbm_res(np.hstack((np.zeros(load.size), w)), load, h, Nt=Nt)[1], load)
    U = newton(f, U0, 1e-10)
    if U is None or np.abs(U).max() > 50:
        t.skip('no solution found')
    if systems.early(s, U, c['h'], Nt):
        t.skip('convergence test at zero force')
    X = ref.split(U, N, c['h'])
    uc, us = rec @ X[h0], rec @ X[h0 + 1]
    A = np.hypot(uc, us)
    o = c['order']
    sc = systems.residual(s, U, w, c['h'], Nt, load)[1]
    amp = w ** o * A
    r = vs.hbm_amp_control_res(np.hstack((U, 1.0, w)), load, h, rec, amp, o, Nt=Nt)[0]
    t.close(r, np.zeros(r.size), 'amplitude controlled residual at a solution', rtol=0,
            atol=2e-10 + 1e-12 * (sc + amp ** 2))
    if any(f['type'] not in ('cubic', 'cubdamp', 'quintic') for f in s['forces']):
        # sampled hysteretic forces are only shift invariant by whole samples: shift the phase condition instead
        m = c['seed'] % Nt
        th = 2 * np.pi * m / Nt
        Xs = ref.shift(X, c['h'], th)
        a, b = Xs[h0], Xs[h0 + 1]
        # choose the observed DOF combination so that its sine response vanishes after the shift
        i = int(np.argmax(np.abs(b)))
        r2 = rec.copy()
        r2[i] -= (rec @ b) / b[i] if b[i] != 0 else 0.0
        if abs(r2 @ b) > 1e-12 * (np.abs(b).max() + 1e-300) * np.abs(r2).max():
            t.skip('no observable with zero sine response')
        A, rec = r2 @ a, r2
        amp = w ** o * A
        t.label('whole-sample shift')
    else:
        # cos(kt) part of shifted signal real and positive: a cos + b sin = A cos(t - phi)
        th = np.arctan2(us, uc)
        Xs = ref.shift(X, c['h'], th)
        t.label('exact shift')
    Us = Xs.reshape(-1)
    if systems.early(s, Us, c['h'], Nt):
        t.skip('convergence test at zero force')
    if abs(amp) < 1e-3:
        t.skip('no response to control')
    # load cos(t) becomes cos(t + th) = cos(th) cos t - sin(th) sin t
    Fc, Fs = np.cos(th), -np.sin(th)
    tol = dict(rtol=0, atol=1e-9 + 1e-10 * (sc + amp))
    r = vs.hbm_amp_phase_control_res(np.hstack((Us, Fc, Fs, w)), load, h, rec, amp, o, Nt=Nt)[0]
    t.close(r, np.zeros(r.size), 'amplitude-phase residual at the shifted solution', **tol)
    r = vs.hbm_amp_phase_control_dA_res(np.hstack((Us, Fc, Fs, amp)), load, h, rec, w, o, Nt=Nt)[0]
    t.close(r, np.zeros(r.size), 'amplitude continuation residual at the shifted solution', **tol)
    labels(c, t)
    t.nontrivial(True)
