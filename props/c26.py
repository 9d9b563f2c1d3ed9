"""C26 Predicted initial harmonic solutions are exact on linear systems."""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter


@st.composite
def lin(draw, N=None, restrained=False):
    N = draw(st.integers(1, 5)) if N is None else N
    h = draw(gen.harmonics(6, must=(1,), max_n=3))
    n = ref.nhc(h) * N
    K = dict(K=draw(gen.spd(N, 0.5, 2.0)))
    rigid = draw(st.sampled_from([0, 0, 0, 0, 1, 2])) if not restrained else 0
    if rigid:
        K = systems.float_free(K, rigid)
    return dict(N=N, M=draw(gen.spd(N)), K=K['K'], rigid=rigid, ab=[draw(gen.num(0.0, 0.3, 60)), draw(gen.num(0.005, 0.3, 60))],
                h=h, w=draw(gen.num(0.3, 3.0)), Fl=draw(gen.vec(n, 2.0)), seed=draw(st.integers(0, 9999)),
                static=draw(st.booleans()) and not rigid, fmag=draw(st.one_of(gen.logn(1e-3, 1e3), gen.logn(1e-3, 1e3).map(lambda x: -x))),
                amp=draw(gen.logn(1e-4, 1e3)), recov=draw(gen.vec(N, 2.0)), order=draw(st.integers(0, 2)),
                neigs=draw(st.sampled_from(['N', 'N', 'more', 'default', 'fewer'])), case=draw(st.sampled_from(['upper', 'lower', 'title'])),
                short=draw(st.booleans()))


def neigs_of(c):
    N = c['N']
    return dict(N=N, more=N + 2, default=3, fewer=max(1, N - 1))[c['neigs']]


def matrices(c):
    M, K = arr(c['M']), arr(c['K'])
    return M, c['ab'][0] * M + c['ab'][1] * K, K


def dense(c, w, Fc, Fs, k=None):
    """Response of M x'' + C x' + K x = Fc cos + Fs sin as cosine and sine vectors; k modes only if given."""
    import scipy.linalg as sl
    M, C, K = matrices(c)
    D = K - w ** 2 * M
    A = np.block([[D, w * C], [-w * C, D]])
    N = c['N']
    if k is None or k >= N:
        x = np.linalg.solve(A, np.r_[Fc, Fs])
        gap = 1.0
    else:
        lam, V = sl.eigh(K, M)
        gap = (lam[k] - lam[k - 1]) / max(lam[k - 1], 1e-3 * lam[-1])
        V = V[:, :k]
        B = np.block([[V.T @ D @ V, w * V.T @ C @ V], [-w * V.T @ C @ V, V.T @ D @ V]])
        y = np.linalg.solve(B, np.r_[V.T @ Fc, V.T @ Fs])
        x = np.r_[V @ y[:k], V @ y[k:]]
    sv = np.linalg.svd(A, compute_uv=False)
    return x[:N], x[N:], sv[0] / sv[-1], gap


class Run:
    """one prediction with every input checked for modification"""

    def __init__(self, c, t, eq, Fl, **k):
        from tmdsimpy.vibration_system import VibrationSystem
        from tmdsimpy.solvers import NonlinearSolver
        from tmdsimpy.utils import harmonic as hu
        self.M, self.C, self.K = matrices(c)
        self.vs = VibrationSystem(self.M, self.K, ab=list(c['ab']))
        keep = {a: np.array(b).copy() for a, b in k.items() if isinstance(b, np.ndarray)}
        Fl0, h = Fl.copy(), np.array(c['h'])
        name = {'upper': eq, 'lower': eq.lower(), 'title': eq.title()}[c['case']]
        if c['neigs'] != 'default':
            k = dict(k, neigs=neigs_of(c))
        with contextlib.redirect_stdout(io.StringIO()):
            self.U = np.asarray(hu.predict_harmonic_solution(self.vs, c['w'], Fl, h, NonlinearSolver(), name, **k))
        t.same(Fl, Fl0, 'load modified'); t.same(h, np.array(c['h']), 'harmonics modified')
        for a, b in keep.items():
            t.same(k[a], b, a + ' modified')
        t.same(self.vs.M, self.M, 'mass matrix modified'); t.same(self.vs.K, self.K, 'stiffness matrix modified')
        t.close(self.vs.C, self.C, 'damping matrix modified', rtol=1e-13)


def loads(c, sine=True):
    """Load vector: static part, first harmonic; other harmonics are not considered by the prediction."""
    N, h0 = c['N'], int(c['h'][0] == 0)
    Fl = jitter(c['Fl'], c['seed'])
    F1c, F1s = Fl[h0 * N:(h0 + 1) * N], Fl[(h0 + 1) * N:(h0 + 2) * N]
    if not sine:
        F1s[:] = 0.0
    arg = Fl[:(2 + h0) * N].copy() if c['short'] else Fl.copy()
    only = np.zeros_like(Fl)                             # the load for which the prediction is meant to be exact
    only[:(2 + h0) * N] = Fl[:(2 + h0) * N]
    return arg, only, F1c.copy(), F1s.copy(), h0


def place(c, t, U, X, extra, cond, what, rtol=1e-9):
    """U = [0 or static, first harmonic, zeros ..., extras]"""
    N, n = c['N'], ref.nhc(c['h']) * c['N']
    t.ok(U.shape == (n + len(extra),), what + ': length', got=U.shape, want=n + len(extra))
    want = np.zeros(n)
    h0 = int(c['h'][0] == 0)
    want[h0 * N:(h0 + 2) * N] = X
    if h0 and c['xs'] is not None:
        want[:N] = c['xs']
        t.close(U[:N], c['xs'], what + ': static displacement', rtol=1e-14, elem=True)
    t.ok(np.all(U[(h0 + 2) * N:n] == 0), what + ': higher harmonics are not zero')
    if h0 and c['xs'] is None:
        t.ok(np.all(U[:N] == 0), what + ': static displacement is not zero')
    t.close(U[h0 * N:(h0 + 2) * N], X, what + ': first harmonic', rtol=rtol + 1e-13 * cond, scale=np.abs(X).max())
    for i, e in enumerate(extra):
        s = abs(e) if i >= len(extra) - 1 or len(extra) < 3 else np.hypot(extra[0], extra[1]) if i < 2 else abs(e)
        t.close(U[n + i], e, what + ': appended unknown %d' % i, rtol=rtol + 1e-13 * cond, scale=s)


def prep(c, t, sine):
    N = c['N']
    arg, only, Fc, Fs, h0 = loads(c, sine)
    c['xs'] = np.linalg.solve(arr(c['K']), only[:N]) if c['static'] and h0 else (0.3 * jitter(c['recov'], 5) if c['static'] else None)
    if h0 and not c['static']:
        only[:N] = 0.0
    k = neigs_of(c)
    xc, xs, cond, gap = dense(c, c['w'], Fc, Fs, k)
    if cond > 1e7 or gap < 1e-5:
        t.skip('nearly singular or coinciding modes')
    t.label('modes: ' + ('all' if k >= N else 'fewer'), 'order%d' % c['order'], 'h0' if h0 else 'no h0', 'N%d' % N, *['rigid body mode'] * bool(c['rigid']))
    kw = {} if c['xs'] is None else dict(Xstat=c['xs'].copy())
    return arg, only, Fc, Fs, h0, xc, xs, cond / min(1, gap), k >= N, kw


def forcebal(c, w, X):
    """sum of the magnitudes of the terms of the equation of motion"""
    M, C, K = matrices(c)
    return (np.abs(M).max() * w * w + np.abs(C).max() * w + np.abs(K).max()) * c['N'] * np.abs(X).max()


@clause(lambda: lin(), quick=700, rule='all modes used and a non-zero response')
def frequency(c, t):
    arg, only, Fc, Fs, h0, xc, xs, cond, full, kw = prep(c, t, True)
    f = c['fmag']
    r = Run(c, t, 'HBM', arg, fmag=f, **kw)
    X = f * np.r_[xc, xs]
    place(c, t, r.U, X, [c['w']], cond, 'HBM')
    if full:
        load = f * only
        load[:c['N'] * h0] = only[:c['N'] * h0]
        R = r.vs.hbm_res(r.U.copy(), load, np.array(c['h']), Nt=32)[0]
        if h0 or not c['static']:
            t.close(R, 0 * R, 'residual of the prediction', rtol=0, atol=1e-10 * (forcebal(c, c['w'], r.U[:-1]) + np.abs(load).max()))
    t.nontrivial(full and np.any(X))


def control(c, t, sine):
    arg, only, Fc, Fs, h0, xc, xs, cond, full, kw = prep(c, t, sine)
    rec = jitter(c['recov'], c['seed'] + 1)
    z = rec @ xc - 1j * (rec @ xs)                         # response z exp(i t): real part cosine
    if abs(z) < 1e-3 * np.abs(rec).sum() * (np.abs(xc).max() + np.abs(xs).max()) or abs(z) < 1e-8:
        t.skip('controlled DOF does not respond')
    g = c['amp'] / (abs(z) * c['w'] ** c['order'])         # force for the requested amplitude
    kw.update(control_amp=c['amp'], control_recov=rec, control_order=c['order'])
    return arg, only, h0, xc, xs, cond, full, kw, rec, z, g


@clause(lambda: lin(), quick=700, rule='all modes used')
def amplitude_control(c, t):
    arg, only, h0, xc, xs, cond, full, kw, rec, z, g = control(c, t, True)
    r = Run(c, t, 'HBM_AMP', arg, **kw)
    place(c, t, r.U, g * np.r_[xc, xs], [g, c['w']], cond * 1e2, 'HBM_AMP')
    if full and (h0 or not c['static']):
        R = r.vs.hbm_amp_control_res(r.U.copy(), only, np.array(c['h']), rec, c['amp'], c['order'], Nt=32)[0]
        sc = forcebal(c, c['w'], r.U[:-2]) + g * np.abs(only).max() + np.abs(only).max()
        t.close(R[:-1], 0 * R[:-1], 'residual of the prediction', rtol=0, atol=1e-10 * sc)
        t.close(R[-1:], 0 * R[-1:], 'amplitude equation of the prediction', rtol=0, atol=1e-10 * c['amp'] ** 2)
    t.nontrivial(full)


def rotated(c, xc, xs, z, g):
    """Shift in time so that the controlled DOF moves as a pure positive cosine."""
    ph = np.conj(z) / abs(z)
    X = g * ph * (xc - 1j * xs)
    F = g * ph                                             # force F exp(i t) = Re F cos - Im F sin
    return np.r_[X.real, -X.imag], F.real, -F.imag


@clause(lambda: lin(), quick=700, rule='all modes used and the load rotated by more than 0.1 rad')
def amplitude_phase_control(c, t):
    arg, only, h0, xc, xs, cond, full, kw, rec, z, g = control(c, t, False)
    r = Run(c, t, 'HBM_AMP_PHASE', arg, **kw)
    X, Fc, Fs = rotated(c, xc, xs, z, g)
    place(c, t, r.U, X, [Fc, Fs, c['w']], cond * 1e2, 'HBM_AMP_PHASE')
    if full and (h0 or not c['static']):
        h = np.array(c['h'])
        sc = forcebal(c, c['w'], r.U[:-3]) + (1 + g) * np.abs(only).max()
        R = r.vs.hbm_amp_phase_control_res(r.U.copy(), only, h, rec, c['amp'], c['order'], Nt=32)[0]
        y = r.U.copy()
        y[-1] = c['amp']                                   # documented use for amplitude continuation
        R2 = r.vs.hbm_amp_phase_control_dA_res(y, only, h, rec, c['w'], c['order'], Nt=32)[0]
        for q in (R, R2):
            t.close(q[:-2], 0 * q[:-2], 'residual of the prediction', rtol=0, atol=1e-10 * sc)
            t.close(q[-2:], 0 * q[-2:], 'control equations of the prediction', rtol=0, atol=1e-10 * c['amp'] * (1 + cond * 1e-4))
    t.nontrivial(full and abs(np.angle(z)) > 0.1)


@st.composite
def vp(draw):
    c = draw(lin(N=draw(st.integers(1, 3)), restrained=True))
    rhi = draw(st.sampled_from([2, 3, 3, 5]))
    c['h'] = sorted(set(c['h']) | {rhi})
    c['Fl'] = draw(gen.vec(ref.nhc(c['h']) * c['N'], 2.0))
    c['rhi'] = rhi
    c['amp'] = draw(gen.num(0.05, 3, 60))
    c['forces'] = [draw(forces.spec(forces.INST + forces.HYST, c['N'])) for _ in range(draw(st.sampled_from([1, 2, 3, 2, 1, 0])))]
    c['grad'] = draw(st.booleans())
    c['res'] = draw(st.booleans())
    if c['res']:
        c['w'] = None
    return c


@clause(lambda: vp(), quick=700, shards=2, rule='all modes used and non-zero superharmonic force')
def superharmonic(c, t):
    """VPRNM prediction: amplitude-phase solution plus the linear response at rhi*w to minus the nonlinear force of it."""
    import scipy.linalg as sl
    N, h, rhi = c['N'], c['h'], c['rhi']
    c = dict(c)
    if c['w'] is None:                                     # phase resonance of the superharmonic with one of the modes
        lam = sl.eigh(arr(c['K']), arr(c['M']), eigvals_only=True)
        c['w'] = float(np.sqrt(lam[c['seed'] % N])) / rhi
    arg, only, h0, xc, xs, cond, full, kw, rec, z, g = control(c, t, False)
    s = dict(N=N, M=c['M'], K=(2 * arr(c['K'])).tolist(), forces=c['forces'])    # linear part of this one is irrelevant
    vnl = systems.build(s)
    X, Fc, Fs = rotated(c, xc, xs, z, g)
    n = ref.nhc(h) * N
    U1 = np.zeros(n)
    U1[h0 * N:(h0 + 2) * N] = X
    if h0 and c['xs'] is not None:
        U1[:N] = c['xs']
    if np.abs(U1).max() > 30:
        t.skip('large motion')
    if systems.early(s, U1, h, 128):
        t.skip('convergence of cycles decided by the tolerance')
    grad = c['grad'] or not systems.grad_flag_ok(s)
    r = Run(c, t, 'VPRNM_AMP_PHASE', arg, rhi=rhi, vib_sys_nl=vnl, vprnm_calc_grad=grad, **kw)
    Fn, fsc = systems.fnl(s, U1, c['w'], h, 128)
    i = ref.nhc([k for k in h if k < rhi]) * N
    yc, ys, cond2, gap = dense(c, rhi * c['w'], -Fn[i:i + N], -Fn[i + N:i + 2 * N], neigs_of(c))
    if cond2 > 1e7 or gap < 1e-5:
        t.skip('nearly singular or coinciding modes')
    U = r.U.copy()
    t.ok(U.shape == (n + 4,), 'length', got=U.shape)
    got = U[i:i + 2 * N].copy()
    # the force is a nonlinear function of the predicted motion: small relative errors of it are passed on
    M, C, K = matrices(c)
    soft = max(np.abs(np.linalg.inv(np.block([[K - (rhi * c['w']) ** 2 * M, rhi * c['w'] * C], [-rhi * c['w'] * C, K - (rhi * c['w']) ** 2 * M]]))).sum(1))
    t.close(got, np.r_[yc, ys], 'superharmonic response', rtol=1e-8 + 1e-12 * cond2 / min(1, gap),
            atol=1e-300, scale=np.abs(np.r_[yc, ys]).max() + 1e-3 * soft * fsc)
    U[i:i + 2 * N] = 0
    place(c, t, U, X, [Fc, Fs, c['w'], c['amp']], cond * 1e2, 'VPRNM_AMP_PHASE')
    # equations of the fundamental motion are satisfied by the prediction on the linear system
    if full and (h0 or not c['static']):
        sc = forcebal(c, c['w'], U1) + (1 + g) * np.abs(only).max()
        R = r.vs.vprnm_amp_phase_res(np.r_[U[:n], r.U[n:]], only, np.array(h), rhi, rec, c['order'], Nt=32)[0]
        t.close(R[:n], 0 * R[:n], 'residual of the fundamental motion', rtol=0, atol=1e-10 * sc)
        t.close(R[n:n + 2], 0 * R[n:n + 2], 'control equations', rtol=0, atol=1e-10 * c['amp'] * (1 + cond * 1e-4))
        t.ok(R.shape == (n + 3,), 'layout of the unknowns')
        # one DOF driven at its natural frequency by the superharmonic: phase condition of the residual
        if N == 1 and c['res'] and np.abs(Fn[i:i + 2]).max() > 1e-6 * fsc + 1e-9:
            # (with harmonics between 1 and rhi empty, the condition uses the same fundamental motion)
            q = vnl.vprnm_amp_phase_res(r.U.copy(), only, np.array(h), rhi, rec, c['order'], Nt=128)[0][-1]
            t.close(q, 0.0, 'phase condition at the superharmonic resonance', rtol=0, atol=1e-6)
            t.label('superharmonic resonance')
    t.label('force' if np.abs(Fn[i:i + 2 * N]).max() > 1e-9 else 'no force', 'rhi%d' % rhi)
    t.nontrivial(full and np.abs(Fn[i:i + 2 * N]).max() > 1e-9)
