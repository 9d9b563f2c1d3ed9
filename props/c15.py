"""C15 VPRNM residuals encode superharmonic phase resonance exactly."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac, check_dir


@st.composite
def case(draw, jax=False, must=(), **k):
    if jax:
        c = draw(systems.hb_jax_case().filter(lambda c: max(c['h']) > 1))
        rhi = draw(st.sampled_from([k for k in c['h'] if k > 1]))
    else:
        rhi = draw(st.integers(2, 5))
        low = draw(st.integers(1, rhi - 1))
        c = draw(systems.hb_case(nf=(1, 3), must=tuple(must) + (rhi, low), **k))
    c['rhi'] = rhi
    N = c['s']['N']
    c['filt'] = draw(st.one_of(st.none(), gen.vec(N, 1.5)))
    c['cs'] = draw(st.sampled_from([1.0, 1.0, 0.1, 7.5, -2.0]))
    c['recov'] = draw(gen.vec(N, 2.0))
    c['order'] = draw(st.integers(0, 2))
    c['sc'] = draw(gen.vec(2, 2.0))
    c['ampl'] = draw(gen.num(0.05, 3))
    return c


def unpack(c, t):
    s, h = c['s'], np.array(c['h'])
    U = systems.motion(c)
    N = s['N']
    r = ref.nhc([k for k in c['h'] if k < c['rhi']]) if c['h'][0] < c['rhi'] else 0
    Uf = U.copy()
    Uf[N * r:] = 0
    for u in (U, Uf):
        if systems.early(s, u, c['h'], c['Nt']):
            t.skip('convergence test at zero force')
    filt = None if c['filt'] is None else jitter(c['filt'], c['seed'] + 3, 0.05)
    return s, h, U, Uf, N, r, filt


def reference(c, s, U, Uf, N, r, filt):
    """(value of the phase condition, conditioning)"""
    F, sc = systems.fnl(s, Uf, c['w'], c['h'], c['Nt'])
    Fr = -F[N * r:N * (r + 2)].reshape(2, N)
    X = U[N * r:N * (r + 2)].reshape(2, N)
    if filt is not None:
        M = systems.mats(s)[0]
        Fr, X = Fr @ filt, X @ M @ filt
    Fr, X = Fr.reshape(-1), X.reshape(-1)
    nF, nX = np.linalg.norm(Fr), np.linalg.norm(X)
    return (Fr @ X / (nF * nX) if nF * nX else 0.0), nF / (sc + 1e-300), nX / (np.abs(U).max() + 1e-300), nX


def labels(c, t):
    t.label('rhi%d' % c['rhi'], 'filter' if c['filt'] is not None else 'no-filter', 'scale%g' % c['cs'],
            'N%d' % c['s']['N'], 'higher' if max(c['h']) > c['rhi'] else 'top')


def prep(c, t):
    s, h, U, Uf, N, r, filt = unpack(c, t)
    want, qF, qX, nX = reference(c, s, U, Uf, N, r, filt)
    if qF < 1e-4 or qX < 1e-4 or nX < 1e-3:
        t.skip('no superharmonic force or response')
    return s, h, U, N, r, filt, want, 1e-12 / qF + 1e-12 / qX + 1e-12


def grad(c, t, s, f, x, out, atol):
    if systems.grad_flag_ok(s):
        o = f(x, calc_grad=False)
        t.ok(len(o) == 1, 'calc_grad=False returns one value')
        t.close(np.array(o[0]), np.array(out[0]), 'residual without gradient', rtol=1e-13, atol=atol)
        t.label('no-grad')


def single(c, t):
    s, h, U, N, r, filt, want, tol = prep(c, t)
    vs = systems.warm(systems.build(s), s, c)
    f = (lambda x, **k: vs.vprnm_single_eqn(x[:-1], x[-1], h, c['rhi'], Nt=c['Nt'], superharmonic_filter=filt, **k))
    x = np.hstack((U, c['w']))
    U0, x0 = U.copy(), x.copy()
    out = f(x)
    t.same(x, x0, 'U modified')
    t.close(np.array(out[0]), want, 'phase condition', rtol=0, atol=tol)
    t.ok(np.shape(out[1]) == x.shape, 'gradient shape')
    if c['seed'] % 2 == 0:
        J = np.array(out[1]).reshape(1, -1)
        g = (lambda y: np.atleast_1d(f(y)[0]))
        check_jac(t, g, x, J, c['seed'], 'gradient of the phase condition', ndir=2, cols=3,
                  floor=tol * 1e12)
        e = np.zeros(x.size)
        e[-1] = 1
        check_dir(t, g, x, J, e, 'frequency derivative of the phase condition', floor=tol * 1e12)
        t.label('fd')
    grad(c, t, s, f, x, out, 1e-12)
    t.kept(f, x, 1.1 * x + .01, 'phase condition', rtol=1e-11 + 10 * tol)
    labels(c, t)
    t.nontrivial(abs(want) > 1e-6)


R = 'the phase condition is not zero'


@clause(case, quick=1100, shards=4, rule=R)
def phase_condition(c, t):
    """Normalised product of the superharmonic response with minus the internal force at that harmonic, generated by
    the motion of the lower harmonics only; gradient."""
    single(c, t)


@clause(lambda: case(jax=True), quick=60, shards=2, rule=R)
def compiled_forces(c, t):
    single(c, t)


def full(c, t, f, x, want, sc, vp, tol, extra):
    s = c['s']
    n = want.size
    x0 = x.copy()
    out = f(x)
    t.same(x, x0, 'unknowns modified')
    Rv = np.array(out[0])
    m = n + len(extra) + 1
    t.ok(Rv.shape == (m,) and np.shape(out[1]) == (m, m) and np.shape(out[2]) == (m,), 'shapes')
    t.close(Rv[:n], want, 'equations of motion', rtol=1e-9, atol=1e-13, scale=sc)
    if len(extra):
        t.close(Rv[n:-1], arr(extra), 'control equations', rtol=1e-11, atol=1e-13,
                scale=np.abs(extra).max() + 2 * c['ampl'])
    t.close(Rv[-1], c['cs'] * vp, 'scaled phase condition', rtol=0, atol=tol * abs(c['cs']))
    grad(c, t, s, f, x, out, 1e-13 * sc + 1e-12)
    t.kept(f, x, 1.1 * x + .01, 'residual', rtol=1e-11 + 10 * tol)
    if c['seed'] % 3 == 0:
        J = np.hstack((np.array(out[1]), np.array(out[2]).reshape(-1, 1)))
        check_jac(t, lambda y: f(y)[0], x, J, c['seed'], 'Jacobian', cols=1,
                  floor=tol * abs(c['cs']) * 1e12)
        for k in range(n, x.size):
            e = np.zeros(x.size)
            e[k] = 1
            check_dir(t, lambda y: f(y)[0], x, J, e, 'Jacobian column of unknown %d' % (k - n),
                      floor=tol * abs(c['cs']) * 1e12)
        t.label('fd')
    labels(c, t)
    t.nontrivial(abs(vp) > 1e-6)


@clause(case, quick=700, shards=3, rule=R)
def constant_force_residual(c, t):
    """HB residual with scaled dynamic load followed by the scaled phase condition."""
    s, h, U, N, r, filt, vp, tol = prep(c, t)
    Fl, vs, F = arr(c['Fl']), systems.warm(systems.build(s), s, c), c['sc'][0]
    ns = N * (c['h'][0] == 0)
    load = F * Fl
    load[:ns] = Fl[:ns]
    want, sc = systems.residual(s, U, c['w'], c['h'], c['Nt'], load)
    Fl0 = Fl.copy()
    full(c, t, lambda x, **k: vs.vprnm_res(x, h, c['rhi'], Fl, Nt=c['Nt'], superharmonic_filter=filt,
                                           constraint_scale=c['cs'], **k),
         np.hstack((U, c['w'], F)), want, sc, vp, tol, [])
    t.same(Fl, Fl0, 'Fl modified')


@clause(lambda: case(must=(1,)), quick=700, shards=3, rule=R)
def controlled_residual(c, t):
    """Amplitude-phase controlled residual followed by the scaled phase condition."""
    s, h, U, N, r, filt, vp, tol = prep(c, t)
    Fl, vs, (Fc, Fs) = arr(c['Fl']), systems.warm(systems.build(s), s, c), c['sc']
    h0 = int(c['h'][0] == 0)
    load = np.zeros_like(Fl)
    load[:N * h0] = Fl[:N * h0]
    load[N * h0:N * (h0 + 1)] = Fc * Fl[N * h0:N * (h0 + 1)]
    load[N * (h0 + 1):N * (h0 + 2)] = Fs * Fl[N * h0:N * (h0 + 1)]
    want, sc = systems.residual(s, U, c['w'], c['h'], c['Nt'], load)
    X = ref.split(U, N, c['h'])
    rec = jitter(c['recov'], c['seed'] + 1)
    wo = c['w'] ** c['order']
    extra = [wo * (rec @ X[h0]) - c['ampl'], wo * (rec @ X[h0 + 1])]
    full(c, t, lambda x, **k: vs.vprnm_amp_phase_res(x, Fl, h, c['rhi'], rec, c['order'], Nt=c['Nt'],
                                                     superharmonic_filter=filt, constraint_scale=c['cs'], **k),
         np.hstack((U, Fc, Fs, c['w'], c['ampl'])), want, sc, vp, tol, extra)
