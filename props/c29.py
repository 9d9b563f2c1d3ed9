"""C29 Variable scaling for conditioning is positive and representative."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr


@st.composite
def cond(draw):
    wide = draw(st.integers(0, 5)) == 0
    N = draw(st.integers(1, 5) if not wide else st.integers(6, 15))
    h = draw(gen.harmonics(9, max_n=5) if not wide else gen.harmonics(25, max_n=9))
    m = draw(st.integers(0, 4) if not wide else st.integers(0, 12))
    H = len(h)
    kind = draw(st.sampled_from(['default', 'float', 'float', 'npfloat', 'int', 'arr', 'arr', 'list', 'zero-d']))
    d = dict(N=N, h=h, m=m, kind=kind, X=draw(gen.vec(ref.nhc(h) * N + m, 1.0)), scl=[draw(gen.logn(1e-8, 1e4)) for _ in range(H + m)],
             delta=draw(gen.logn(1e-7, 10.0)), darr=[draw(gen.logn(1e-7, 10.0)) for _ in range(H + 1)],
             zero=draw(st.lists(st.integers(0, H + m), max_size=2)))
    return d


def build(c):
    """solution with harmonics of very different magnitude, some of them exactly zero"""
    N, h, m = c['N'], c['h'], c['m']
    X = arr(c['X']).copy()
    r = 0
    for i, k in enumerate(h):
        n = (1 if k == 0 else 2) * N
        X[r:r + n] *= 0.0 if i in c['zero'] else c['scl'][i]
        r += n
    for j in range(m):
        X[r + j] *= 0.0 if len(h) + j in c['zero'] else c['scl'][len(h) + j]
    k = c['kind']
    H = len(h)
    if k == 'default':
        return X, None, np.full(H + 1, 1e-4)
    if k in ('arr', 'list'):
        d = c['darr'][:H + (m > 0)]
        return X, (np.array(d) if k == 'arr' else list(d)), np.array(c['darr'])
    if k == 'int':
        v = 1 + int(c['delta'])
        return X, v, np.full(H + 1, float(v))
    v = c['delta']
    return X, {'float': float(v), 'npfloat': np.float64(v), 'zero-d': np.array(v)}[k], np.full(H + 1, v)


def want(c, X, dmin):
    N, h = c['N'], c['h']
    out, r = [], 0
    for i, k in enumerate(h):
        n = (1 if k == 0 else 2) * N
        out += [max(dmin[i], sum(abs(v) for v in X[r:r + n]) / n)] * n
        r += n
    return np.array(out + [max(dmin[len(h)], abs(v)) for v in X[r:]])


def call(c, X, d):
    from tmdsimpy.utils import harmonic as hu
    h = np.array(c['h'])
    a = hu.harmonic_wise_conditioning(X, c['N'], h) if d is None else hu.harmonic_wise_conditioning(X, c['N'], h, delta=d)
    assert np.array_equal(h, c['h'])
    return np.asarray(a)


@clause(lambda: cond(), quick=2500, rule='one harmonic above and another at its minimum value, appended unknowns present')
def scaling_definition(c, t):
    X, d, dmin = build(c)
    X0 = X.copy()
    d0 = None if d is None else np.array(d, dtype=float).copy()
    C = call(c, X, d)
    t.same(X, X0, 'solution modified')
    if d is not None:
        t.same(np.array(d, dtype=float), d0, 'minimum values modified')
    W = want(c, X0, dmin)
    t.ok(C.shape == X.shape, 'length of the scaling vector', got=C.shape)
    t.ok(np.all(C > 0), 'not strictly positive')
    t.close(C, W, 'scaling (%s)' % c['kind'], rtol=1e-12, elem=True)
    t.close((X0 / C) * C, X0, 'rescaled and back', rtol=1e-14, elem=True, atol=1e-300)
    # homogeneity: scaling everything by a factor scales the result
    s = 2.0 ** 7
    d2 = 1e-4 * s if d is None else (np.array(d, dtype=float) * s if np.ndim(d) else float(d) * s)
    t.close(call(c, X0 * s, d2), W * s, 'proportional to the solution', rtol=1e-12, elem=True)
    t.close(call(c, -X0, d), W, 'depends on signs', rtol=1e-12, elem=True)
    t.label(c['kind'], 'm=%d' % c['m'], 'harmonic 0' if c['h'][0] == 0 else 'no harmonic 0')
    n = len(W) - c['m']
    r, lo, hi = 0, False, False
    for i, k in enumerate(c['h']):
        lo |= W[r] <= dmin[i]
        hi |= W[r] > dmin[i]
        r += (1 if k == 0 else 2) * c['N']
    t.nontrivial(lo and hi and c['m'] > 0)


@st.composite
def contcond(draw):
    c = draw(cond())
    c['h'] = sorted(set(c['h']) | {1})
    c['scl'] += [1.0] * 3
    N = c['N']
    c['X'] = draw(gen.vec(ref.nhc(c['h']) * N + 1, 1.0))
    c.update(m=1, kind='default', K=draw(gen.spd(N, 0.5, 2.0)), M=draw(gen.spd(N)), w=draw(gen.num(0.3, 2.5)),
             P=draw(gen.vec(ref.nhc(c['h']) * N + 1, 1.0)), Fl=draw(gen.vec(ref.nhc(c['h']) * N, 1.0)))
    return c


@clause(lambda: contcond(), quick=250, rule='scaling vector not constant')
def solution_independent_of_scaling(c, t):
    """A linear harmonic balance problem solved in scaled unknowns: scaling back gives the same solution."""
    import scipy.linalg as sl
    from tmdsimpy.vibration_system import VibrationSystem
    N, h = c['N'], c['h']
    X, d, dmin = build(c)
    X[-1] = c['w']
    C = call(c, X, d)
    vs = VibrationSystem(arr(c['M']), arr(c['K']), ab=[0.05, 0.03])
    Fl = arr(c['Fl'])
    f = lambda Y: vs.hbm_res(np.r_[C[:-1] * Y, c['w']], Fl, np.array(h), Nt=32)
    R0, J = f(np.zeros(C.size - 1))[:2]
    Js = J * C[:-1]                                             # derivative with respect to the scaled unknowns
    sv = np.linalg.svd(J, compute_uv=False)
    if sv[-1] < 1e-4 * sv[0]:
        t.skip('nearly singular')
    Y = sl.solve(Js, -R0)
    U = C[:-1] * Y
    t.close(U, np.linalg.solve(J, -R0), 'solution in scaled unknowns', rtol=1e-8 * C.max() / C.min() * 1e-4 + 1e-9)
    t.close(f(Y)[0], 0 * R0, 'residual', rtol=0, atol=1e-9 * (np.abs(R0).max() + 1e-300) * (1 + C.max() / C.min() * 1e-6) + 1e-300)
    C2 = call(c, np.r_[U, c['w']], 1e-6)
    t.ok(np.all(C2 > 0) and C2.shape == C.shape and abs(C2[-1] - c['w']) <= 1e-12 * c['w'], 'scaling at the solution')
    t.nontrivial(np.ptp(C[:-1]) > 0)
