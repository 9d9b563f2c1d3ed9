"""C02 Harmonic dynamic stiffness."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr


def hs(*a, **k):
    from tmdsimpy.utils.harmonic import harmonic_stiffness
    return harmonic_stiffness(*a, **k)


@st.composite
def case(draw):
    wide = draw(st.integers(0, 5)) == 0
    N = draw(st.integers(1, 4) if not wide else st.integers(5, 9))
    h = draw(st.one_of(gen.harmonics(9), gen.harmonics(9), st.just([0]), st.just([0, 1, 2, 3])) if not wide
             else gen.harmonics(30, max_n=10))
    return dict(N=N, h=h, M=draw(gen.mat(N, N, 2.0)), C=draw(gen.mat(N, N, 2.0)), K=draw(gen.mat(N, N, 5.0)),
                w=draw(st.one_of(gen.num(-3, 3, 600), gen.logn(1e-2, 1e2), st.sampled_from([0.0, 0.0, 1.0]))), U=draw(gen.vec(N * ref.nhc(h), 2.0)))


def ref_only(h, M, C, K, U, w, part):
    Z = np.zeros_like(M)
    return ref.lin_res(M if part == 'all' else Z, C, K if part == 'all' else Z, U, w, h)


@clause(case, quick=1500, shards=2, rule='non-zero matrices, displacement and frequency')
def is_the_operator(c, t):
    h = np.array(c['h'])
    M, C, K, U, w = arr(c['M']), arr(c['C']), arr(c['K']), arr(c['U']), c['w']
    inp = [x.copy() for x in (M, C, K)] + [h.copy()]
    n = U.size
    out = hs(M, C, K, w, h)
    t.ok(isinstance(out, tuple) and len(out) == 2, 'E and dEdw expected')
    E, dE = out
    t.ok(E.shape == (n, n) and dE.shape == (n, n), 'shape', E=E.shape, dE=dE.shape)
    hw = max(c['h'] + [1]) * abs(w)
    s = (np.abs(K).max() + np.abs(M).max() * hw ** 2 + np.abs(C).max() * hw + 1e-3) * c['N'] * (np.abs(U).max() + 1e-3)
    t.close(E @ U, ref.lin_res(M, C, K, U, w, c['h']), 'E @ U', rtol=1e-11, scale=s)
    # time domain: the harmonic coefficients of M x'' + C x' + K x sampled in time
    Nt = 2 * max(c['h']) + 4
    X = ref.split(U, c['N'], c['h'])
    x, v, a = (ref.series(c['h'], X, Nt, o) * w ** o for o in range(3))
    t.close(E @ U, ref.flat(ref.project(c['h'], a @ M.T + v @ C.T + x @ K.T)), 'E @ U vs time domain', rtol=1e-9, scale=s)
    # exact frequency derivative: E is a quadratic polynomial in w
    d = 0.5
    want = (hs(M, C, K, w + d, h, calc_grad=False)[0] - hs(M, C, K, w - d, h, calc_grad=False)[0]) / (2 * d)
    t.close(dE, want, 'dEdw', rtol=1e-9, scale=np.abs(want).max() + s / (np.abs(U).max() + 1e-3) + 10 * max(c['h'] + [1]) ** 2)
    t.close(dE @ U, (ref.lin_res(M, C, K, U, w + d, c['h']) - ref.lin_res(M, C, K, U, w - d, c['h'])) / (2 * d),
            'dEdw @ U', rtol=1e-9, scale=s + 10 * max(c['h'] + [1]) ** 2)
    t.kept(lambda z: hs(M, C, K, z[0], h), np.array([w]), np.array([1.2 * w + .1]), 'stiffness')
    for a0, b0, nm in zip((M, C, K, h), inp, 'MCKh'):
        t.same(a0, b0, 'input %s modified' % nm)
    t.nontrivial(np.any(M) and np.any(C) and np.any(K) and np.any(U) and w != 0 and max(c['h']) > 0)


@clause(case, quick=800, rule='non-zero damping and frequency')
def options(c, t):
    h = np.array(c['h'])
    M, C, K, U, w = arr(c['M']), arr(c['C']), arr(c['K']), arr(c['U']), c['w']
    E, dE = hs(M, C, K, w, h)
    o = hs(M, C, K, w, h, calc_grad=False)
    t.ok(isinstance(o, tuple) and len(o) == 1, 'one-tuple expected without gradients')
    t.equal(o[0], E, 'E differs without gradients')
    Z = np.zeros_like(M)
    Ec, dEc = hs(Z, C, Z, w, h)
    t.kept(lambda z: hs(None, C, None, z[0], h, only_C=True), np.array([w]), np.array([1.2 * w + .1]), 'only_C')
    for Mi, Ki in ((M, K), (None, None), (0, 0)):
        a = hs(Mi, C, Ki, w, h, only_C=True)
        t.close(a[0], Ec, 'only_C value', rtol=1e-12, atol=1e-14)
        t.close(a[1], dEc, 'only_C derivative', rtol=1e-12, atol=1e-14)
        b = hs(Mi, C, Ki, w, h, calc_grad=False, only_C=True)
        t.ok(len(b) == 1, 'only_C without gradient')
        t.equal(b[0], a[0], 'only_C differs without gradients')
    t.close(a[0] @ U, ref.lin_res(Z, C, Z, U, w, c['h']), 'only_C operator', rtol=1e-11, atol=1e-12)
    # additive in the three matrices
    t.close(hs(M, Z, Z, w, h)[0] + Ec + hs(Z, Z, K, w, h)[0], E, 'additive', rtol=1e-12, atol=1e-12)
    t.nontrivial(np.any(C) and w != 0 and max(c['h']) > 0)


@st.composite
def int_case(draw):
    N = draw(st.integers(1, 3))
    m = st.lists(st.lists(st.integers(-4, 4), min_size=N, max_size=N), min_size=N, max_size=N)
    return dict(N=N, h=draw(gen.harmonics(6)), M=draw(m), C=draw(m), K=draw(m), w=draw(st.one_of(st.integers(-3, 3), gen.num(-3, 3, 600))),
                kind=draw(st.sampled_from(['int', 'int', 'fortran', 'view'])))


@clause(int_case, quick=400, rule='non-zero matrices and frequency')
def any_matrix_representation(c, t):
    """Integer-valued arrays, column-major arrays and strided views describe the same system."""
    h = np.array(c['h'])
    f = [np.array(c[k], float) for k in 'MCK']
    want = hs(*f, float(c['w']), h)
    if c['kind'] == 'int':
        g = [np.array(c[k], dtype=int) for k in 'MCK']
    elif c['kind'] == 'fortran':
        g = [np.asfortranarray(x) for x in f]
    else:
        g = []
        for x in f:
            b = np.full((2 * len(x), 2 * len(x)), 7.7)
            b[::2, ::2] = x
            g.append(b[::2, ::2])
    inp = [x.copy() for x in g]
    for flags in (dict(), dict(calc_grad=False), dict(only_C=True)):
        a = hs(*g, c['w'], h, **flags)
        b = want if not flags.get('only_C') else hs(*f, float(c['w']), h, only_C=True)
        for x, y in zip(a, b):
            t.close(x, y, 'same matrices given as %s' % c['kind'], rtol=1e-12, atol=1e-13)
    for x, y in zip(g, inp):
        t.same(x, y, 'input modified')
    t.nontrivial(all(np.any(x) for x in f) and c['w'] != 0 and max(c['h']) > 0)
