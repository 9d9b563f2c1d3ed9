"""C11 Harmonic balance residual states the periodic equation of motion."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac


def unpack(c):
    return c['s'], systems.motion(c), arr(c['Fl']), np.array(c['h'])


def labels(c, t):
    t.label('N%d' % c['s']['N'], 'h0' if c['h'][0] == 0 else 'no-h0', 'hmax%d' % max(c['h']),
            'nf%d' % len(c['s']['forces']), 'C' if 'C' in c['s'] else 'ab' if 'ab' in c['s'] else 'undamped')


def jac(A):
    return np.hstack((np.array(A[1]), np.array(A[2]).reshape(-1, 1)))


def _res(c, t, with_jac=True, with_val=True):
    s, U, Fl, h = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    vs = systems.warm(systems.build(s), s, c)
    Uw = np.hstack((U, c['w']))
    k = dict(Nt=c['Nt'])
    ins = [Uw.copy(), Fl.copy(), h.copy(), vs.M.copy(), vs.C.copy(), vs.K.copy()]
    out = vs.hbm_res(Uw, Fl, h, **k)
    for a, b, nm in zip(ins, (Uw, Fl, h, vs.M, vs.C, vs.K), ('Uw', 'Fl', 'h', 'M', 'C', 'K')):
        t.same(b, a, nm + ' modified')
    n = U.size
    want, sc = systems.residual(s, U, c['w'], c['h'], c['Nt'], Fl)
    if with_val:
        t.close(np.array(out[0]), want, 'residual', rtol=1e-9, atol=1e-13, scale=sc)
        t.ok(np.shape(out[1]) == (n, n) and np.shape(out[2]) == (n,), 'Jacobian shapes')
        if systems.grad_flag_ok(s):
            o = vs.hbm_res(Uw, Fl, h, calc_grad=False, **k)
            t.ok(len(o) == 1, 'calc_grad=False returns one value')
            t.close(np.array(o[0]), np.array(out[0]), 'residual without gradient', rtol=1e-13, atol=1e-14, scale=sc)
            t.label('no-grad')
        t.kept(lambda x: vs.hbm_res(x, Fl, h, **k)[:3], Uw, 1.1 * Uw + .01, 'residual')
        t.nontrivial(np.abs(want).max() > 0 and len(s['forces']) > 0)
    if with_jac:
        F = (lambda X: vs.hbm_res(X, Fl, h, **k)[0])
        t.nontrivial(check_jac(t, F, Uw, jac(out), c['seed'], 'Jacobian') > 0 and len(s['forces']) > 0)
    labels(c, t)


@clause(lambda: systems.hb_case(sym=False), quick=1500, shards=4, rule='non-zero residual with nonlinear forces')
def residual(c, t):
    """Residual = projection of M x'' + C x' + K x + f_nl - f_ext (own time-domain evaluation of every force)."""
    _res(c, t, with_jac=False)


@clause(lambda: systems.hb_case(sym=False), quick=900, shards=4, rule='differentiable along a direction, with forces')
def jacobian(c, t):
    """dR/dU and dR/dw against finite differences of the residual."""
    _res(c, t, with_val=False)


@clause(lambda: systems.hb_jax_case(types=systems.TWICE + ('cubdamp', 'iwan4')), quick=120, shards=2,
        rule='non-zero residual, informative direction')
def compiled_forces(c, t):
    _res(c, t)


@st.composite
def time_case(draw):
    c = draw(systems.hb_case(types=forces.SMOOTH, nf=(0, 2), zero=None, maxh=4))
    return c


@clause(time_case, quick=500, rule='time signal with nonlinear forces')
def time_domain(c, t):
    """Projection of the acceleration form evaluated sample by sample (no per-harmonic stiffness)."""
    s, U, Fl, h = unpack(c)
    M, C, K = systems.mats(s)
    X = ref.split(U, s['N'], c['h'])
    Nt, w = max(c['Nt'], 2 * max(c['h']) + 2), c['w']
    x, v, a = (w ** n * ref.series(c['h'], X, Nt, n) for n in range(3))
    r = a @ M.T + v @ C.T + x @ K.T - ref.series(c['h'], ref.split(Fl, s['N'], c['h']), Nt)
    for f in s['forces']:
        Q, T = arr(f['Q']), arr(f['T'])
        r = r + ref.law_inst(f, x @ Q.T, v @ Q.T) @ T.T
    want = ref.flat(ref.project(c['h'], r))
    out = systems.warm(systems.build(s), s, c).hbm_res(np.hstack((U, w)), Fl, h, Nt=Nt)
    t.close(out[0], want, 'projected equation of motion', rtol=1e-9, atol=1e-13, scale=np.abs(r).max())
    labels(c, t)
    t.nontrivial(len(s['forces']) > 0)


@st.composite
def dfl_case(draw):
    c = draw(systems.hb_case())
    c['F'] = draw(gen.num(-3, 3))
    return c


@clause(dfl_case, quick=900, shards=3, rule='static and dynamic loads, load factor not 0 or 1')
def load_factor(c, t):
    """Force continuation: harmonic excitation scaled, static loads not; exact Jacobians."""
    s, U, Fl, h = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    vs = systems.warm(systems.build(s), s, c)
    nst = s['N'] * (c['h'][0] == 0)
    UF = np.hstack((U, c['F']))
    Fl1, UF1 = Fl.copy(), UF.copy()
    k = dict(Nt=c['Nt'])
    out = vs.hbm_res_dFl(UF, c['w'], Fl, h, **k)
    t.same(Fl, Fl1, 'Fl modified')
    t.same(UF, UF1, 'UF modified')
    load = Fl * c['F']
    load[:nst] = Fl[:nst]
    want, sc = systems.residual(s, U, c['w'], c['h'], c['Nt'], load)
    t.close(out[0], want, 'residual', rtol=1e-9, atol=1e-13, scale=sc)
    dF = -Fl.copy()
    dF[:nst] = 0
    t.close(out[2], dF, 'load factor Jacobian', rtol=1e-14, atol=1e-15)
    t.kept(lambda x: vs.hbm_res_dFl(x, c['w'], Fl, h, **k)[:3], UF, 1.1 * UF + .01, 'residual')
    base = vs.hbm_res(np.hstack((U, c['w'])), load, h, **k)
    t.close(out[1], base[1], 'displacement Jacobian', rtol=1e-12, atol=1e-13)
    if c['seed'] % 3 == 0:
        check_jac(t, lambda X: vs.hbm_res_dFl(X, c['w'], Fl, h, **k)[0], UF, jac(out), c['seed'], 'Jacobian')
    if systems.grad_flag_ok(s):
        o = vs.hbm_res_dFl(UF, c['w'], Fl, h, calc_grad=False, **k)
        t.ok(len(o) == 1, 'calc_grad=False returns one value')
        t.close(o[0], out[0], 'residual without gradient', rtol=1e-13, atol=1e-14, scale=sc)
    labels(c, t)
    t.nontrivial(np.abs(Fl[nst:]).max() > 0 and abs(c['F']) > 0.1 and abs(c['F'] - 1) > 0.1)
