"""C03 Phase utilities."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr


def hu():
    from tmdsimpy.utils import harmonic
    return harmonic


@st.composite
def rot(draw):
    wide = draw(st.integers(0, 5)) == 0
    N = draw(st.integers(1, 3) if not wide else st.integers(4, 8))
    h = draw(gen.harmonics(8) if not wide else gen.harmonics(30, max_n=9))
    M = draw(st.integers(1, 4) if not wide else st.integers(1, 12))
    a = draw(st.integers(0, 3))
    hr = draw(st.sampled_from([k for k in h if k]))
    if M == 1:
        ph = draw(st.one_of(gen.num(-7, 7), gen.vec(1, 7.0), st.integers(-4, 4)))
    else:
        ph = draw(st.one_of(gen.num(-7, 7), gen.vec(M, 7.0), gen.vec(M, 7.0),
                            st.lists(st.integers(-4, 4), min_size=M, max_size=M)))
    return dict(N=N, h=h, M=M, a=a, hr=hr, ph=ph, flat=draw(st.booleans()), U=draw(gen.mat(M, ref.nhc(h) * N + a, 2.0)))


@clause(rot, quick=1500, shards=2, rule='several rows with different angles, or a harmonic other than the first')
def rotation_is_time_shift(c, t):
    h, U = np.array(c['h']), arr(c['U'])
    if c['flat'] and c['M'] == 1:
        U = U[0]
    ph = c['ph'] if not isinstance(c['ph'], list) else np.array(c['ph'])      # keeps integer angles integer
    U0 = U.copy()
    p0 = np.copy(ph)
    R = hu().rotate_subtract_phase(U, c['N'], h, ph, c['hr'])
    t.same(U, U0, 'input modified')
    t.same(np.asarray(ph), p0, 'angles modified')
    U2 = np.atleast_2d(U0)
    t.ok(R.shape == U2.shape, 'shape', got=R.shape)
    nd = ref.nhc(c['h']) * c['N']
    t.equal(R[:, nd:], U2[:, nd:], 'trailing columns')
    angles = np.broadcast_to(np.asarray(ph, float).reshape(-1), (c['M'],))
    # harmonic by harmonic, as complex amplitude of a cos + b sin = Re[(a - i b) exp(i k t)]
    z = 0
    for i in range(c['M']):
        A, B = ref.split(U2[i, :nd], c['N'], c['h']), ref.split(R[i, :nd], c['N'], c['h'])
        r = 0
        for k in c['h']:
            if k == 0:
                t.equal(B[0], A[0], 'zeroth harmonic changed')
                r += 1
                continue
            za, zb = A[r] - 1j * A[r + 1], B[r] - 1j * B[r + 1]
            want = za * np.exp(-1j * angles[i] * k / c['hr'])
            t.close(np.r_[zb.real, zb.imag], np.r_[want.real, want.imag], 'row %d harmonic %d' % (i, k),
                    rtol=1e-10, atol=1e-12)
            t.close(np.abs(zb), np.abs(za), 'amplitude', rtol=1e-10, atol=1e-12)
            if k == c['hr']:
                m = np.abs(za) > 1e-3
                d = np.angle(zb[m] / za[m] * np.exp(1j * angles[i]))
                t.ok(np.all(np.abs(d) < 1e-6), 'phase of the rotated harmonic', d=d)
            r += 2
        # the signal itself, shifted in time
        tt = np.linspace(0, 0.97, 7)
        want = ref.basis(c['h'], tt - angles[i] / c['hr'] / (2 * np.pi)) @ A
        t.close(ref.basis(c['h'], tt) @ B, want, 'time shift', rtol=1e-9, scale=np.abs(A).sum() + 1e-3)
    t.kept(lambda V: hu().rotate_subtract_phase(V, c['N'], h, ph, c['hr']), U, 2 * U + 1, 'rotation')
    # rotating back restores
    back = hu().rotate_subtract_phase(R, c['N'], h, -np.asarray(ph) if isinstance(c['ph'], list) else -ph, c['hr'])
    t.close(back, U2, 'rotating back', rtol=1e-10, atol=1e-12)
    t.nontrivial(np.any(U0) and (np.unique(angles).size > 1 or c['hr'] != 1) and np.any(angles))
    t.label('hr%d' % min(c['hr'], 3), 'vec' if isinstance(c['ph'], list) else 'scalar')


@clause(lambda: st.tuples(st.integers(1, 6).flatmap(lambda n: gen.vec(n, 1.0)),
                          st.sampled_from([1.0, 4.0, 10.0, 100.0, 1000.0]), st.booleans()).map(
    lambda a: dict(p=[x * a[1] if abs(x) > 0.03 else (np.pi if x >= 0 else -np.pi) for x in a[0]], scalar=a[2])), quick=800, rule='an angle outside of [-pi, pi)')
def wrap(c, t):
    p = arr(c['p'])
    if c['scalar']:
        p = p[0]
    p0 = np.copy(p)
    r = np.asarray(hu().shift_pm_pi(p))
    t.same(np.asarray(p), p0, 'input modified')
    t.ok(r.shape == p0.shape, 'shape')
    t.ok(np.all(r >= -np.pi - 1e-12) and np.all(r <= np.pi + 1e-12), 'range', got=r, p=p0)
    edge = np.abs(p0) == np.pi          # the interval is half open: both ends map to -pi
    t.ok(np.all(np.where(edge, r, -np.pi) < 0), 'the end of the range', got=r, p=p0)
    k = (r - p0) / (2 * np.pi)
    t.ok(np.all(np.abs(k - np.round(k)) < 1e-9), 'not equivalent modulo 2 pi', got=r, p=p0)
    ins = np.abs(p0) < np.pi * 0.999
    t.close(r[ins] if r.shape else r, p0[ins] if r.shape else np.where(ins, p0, r), 'angle already in range', rtol=1e-12, atol=1e-12)
    t.nontrivial(np.any(~ins))


@st.composite
def zc(draw):
    n = draw(st.one_of(st.integers(2, 14), st.integers(2, 60)))
    sc = draw(st.sampled_from([1.0, 0.02, 1e3]))
    x = draw(gen.vec(n, sc))
    return dict(x=x, tol=draw(st.one_of(st.none(), st.none(), gen.logn(1e-3, 2))))


@clause(zc, quick=800, rule='at least one sign change')
def crossings(c, t):
    x = arr(c['x'])
    x0 = x.copy()
    kw = {} if c['tol'] is None else dict(zero_tol=c['tol'])
    TF = np.asarray(hu().zero_crossing(x, **kw))
    t.same(x, x0, 'input modified')
    tol = np.inf if c['tol'] is None else c['tol']
    want = np.array([x0[i] * x0[i + 1] < 0 and abs(x0[i]) < tol for i in range(len(x0) - 1)])
    edge = np.array([abs(abs(x0[i]) - tol) < 1e-9 for i in range(len(x0) - 1)])
    t.ok(TF.shape[0] in (len(x0), len(x0) - 1), 'shape', got=TF.shape)
    t.ok(TF.shape[0] == len(x0) - 1 or not TF[-1], 'last sample flagged')
    t.ok(np.all((TF[:len(want)].astype(bool) == want) | edge), 'crossings', got=TF, x=x0, tol=c['tol'])
    t.nontrivial(np.any(want))
