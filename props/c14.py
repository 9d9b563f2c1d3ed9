"""C14 EPMC residual states the mass-normalised nonlinear mode conditions."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac, check_dir


@st.composite
def case(draw, jax=False, wide=(-9, 2), **k):
    c = draw(systems.hb_jax_case() if jax else systems.hb_case(must=(1,), **k))
    c['xi'] = draw(gen.num(-0.5, 1.0))
    c['la'] = draw(st.one_of(gen.num(-3, 1, 80), gen.num(-3, 1, 80), gen.num(*wide, 80)))
    return c


def labels(c, t):
    t.label('N%d' % c['s']['N'], 'h0' if c['h'][0] == 0 else 'no-h0', 'nf%d' % len(c['s']['forces']),
            'hmax%d' % max(c['h']))


def _res(c, t, fd):
    s, h = c['s'], np.array(c['h'])
    U, Fl = systems.motion(c), arr(c['Fl'])
    N, h0 = s['N'], int(c['h'][0] == 0)
    Up = U.copy()
    Up[N * h0:] = 10.0 ** c['la'] * U[N * h0:]
    if systems.early(s, Up, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    M, C, K = systems.mats(s)
    vs = systems.warm(systems.build(s), s, c)
    x = np.hstack((U, c['w'], c['xi'], c['la']))
    ins = [x.copy(), Fl.copy(), h.copy(), vs.C.copy(), vs.M.copy()]
    out = vs.epmc_res(x, Fl, h, Nt=c['Nt'])
    for a, b, n in zip(ins, (x, Fl, h, vs.C, vs.M), ('Uwxa', 'Fl', 'h', 'C', 'M')):
        t.same(b, a, n + ' modified')
    Fst, Fdyn = Fl.copy(), Fl.copy()
    Fst[N * h0:] = 0
    Fdyn[:N * h0] = 0
    want, sc = systems.residual(s, Up, c['w'], c['h'], c['Nt'], Fst, C=C - c['xi'] * M)
    X = ref.split(U, N, c['h'])
    mass = sum(X[k] @ M @ X[k] for k in (h0, h0 + 1)) - 1.0
    n = U.size
    t.ok(np.shape(out[0]) == (n + 2,) and np.shape(out[1]) == (n + 2, n + 2) and np.shape(out[2]) == (n + 2,),
         'shapes')
    R = np.array(out[0])
    t.close(R[:n], want, 'equations of motion', rtol=1e-9, atol=1e-13, scale=sc)
    t.close(R[n], mass, 'unit mass condition', rtol=1e-11, atol=1e-13, scale=abs(mass) + 2)
    t.close(R[n + 1], Fdyn @ U, 'phase condition', rtol=0, atol=1e-13 + 1e-12 * np.abs(Fdyn).max() * np.abs(U).max() * n)
    if systems.grad_flag_ok(s):
        o = vs.epmc_res(x, Fl, h, Nt=c['Nt'], calc_grad=False)
        t.ok(len(o) == 1, 'calc_grad=False returns one value')
        t.close(o[0], R, 'residual without gradient', rtol=1e-13, atol=1e-14, scale=sc + abs(mass) + 1)
        t.label('no-grad')
    y = np.hstack((1.1 * x[:-1] + .01, x[-1] - .05))
    t.kept(lambda z: vs.epmc_res(z, Fl, h, Nt=c['Nt']), x, y, 'residual')
    if fd:
        J = np.hstack((np.array(out[1]), np.array(out[2]).reshape(-1, 1)))
        f = (lambda y: vs.epmc_res(y, Fl, h, Nt=c['Nt'])[0])
        check_jac(t, f, x, J, c['seed'], 'Jacobian')
        for k, nm in ((n, 'w'), (n + 1, 'xi'), (n + 2, 'log-amplitude')):
            e = np.zeros(n + 3)
            e[k] = 1.0
            check_dir(t, f, x, J, e, 'Jacobian column ' + nm)
        t.label('fd')
    labels(c, t)
    t.nontrivial(np.abs(want).max() > 0 and len(s['forces']) > 0)


@clause(case, quick=1100, shards=4, rule='non-zero residual with nonlinear forces')
def residual(c, t):
    """Reference residual of the autonomous system (C - xi M, physical amplitude), unit mass, phase."""
    _res(c, t, False)


@clause(lambda: case(wide=(-3, 1)), quick=600, shards=3, rule='non-zero residual with nonlinear forces')
def jacobians(c, t):
    _res(c, t, True)


@clause(lambda: case(jax=True, wide=(-3, 1)), quick=70, shards=2, rule='non-zero residual with nonlinear forces')
def compiled_forces(c, t):
    _res(c, t, True)


@st.composite
def mode_case(draw):
    s = draw(systems.system(nf=(0, 0), damp='ab'))
    h = draw(gen.harmonics(5, must=(1,), max_n=3))
    return dict(s=s, h=h, mode=draw(st.integers(0, s['N'] - 1)), la=draw(gen.num(-6, 2, 80)),
                ph=draw(gen.num(-3.2, 3.2)), Fs=draw(gen.vec(s['N'], 2.0)), Fl=draw(gen.vec(s['N'] * 2, 2.0)))


@clause(mode_case, quick=600, rule='damped mode')
def linear_modes(c, t):
    """Every mode of a proportionally damped system (any phase satisfying the phase condition) is a zero at every
    amplitude, with xi the modal damping of C."""
    s, h = c['s'], np.array(c['h'])
    M, C, K = systems.mats(s)
    N, h0 = s['N'], int(c['h'][0] == 0)
    lam, V = sl.eigh(K, M)
    r = c['mode']
    w, phi = np.sqrt(lam[r]), V[:, r]
    xi = s['ab'][0] + s['ab'][1] * lam[r]
    U = np.zeros((ref.nhc(c['h']), N))
    Fl = np.zeros_like(U)
    if h0:
        Fl[0] = c['Fs']
        U[0] = np.linalg.solve(K, Fl[0])
    U[h0], U[h0 + 1] = np.cos(c['ph']) * phi, -np.sin(c['ph']) * phi
    # phase condition: dynamic load orthogonal to the motion
    F1 = arr(c['Fl'])
    u1 = U[h0:h0 + 2].reshape(-1)
    F1 = F1 - (F1 @ u1) / (u1 @ u1) * u1
    Fl[h0:h0 + 2] = F1.reshape(2, N)
    R = systems.warm(systems.build(s), s, c).epmc_res(np.hstack((U.reshape(-1), w, xi, c['la'])), Fl.reshape(-1), h)[0]
    A = 10 ** c['la']
    sc = A * np.abs(U).max() * (np.abs(K).max() + lam[-1] * np.abs(M).max()) * N + np.abs(Fl).max() + 1
    t.close(R, 0 * R, 'residual of a linear mode', rtol=0, atol=1e-11 * sc)
    labels(dict(s=s, h=c['h']), t)
    t.nontrivial(xi > 0)
