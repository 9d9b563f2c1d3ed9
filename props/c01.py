"""C01 Harmonic coefficients and time series are exact inverses."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr


def hu():
    from tmdsimpy.utils import harmonic
    return harmonic


@st.composite
def sig(draw, hmax=9, jax=False):
    if jax:
        h = draw(st.sampled_from([[0, 1], [1], [0, 1, 2, 3], [1, 3], [0, 2, 5], [2, 3, 7], [0], [0, 1, 2, 3, 4, 5]]))
        N = draw(st.integers(1, 2))
        Nt = draw(st.sampled_from([16, 32, 22, 512]))
    else:
        wide = draw(st.integers(0, 3)) == 0
        h = draw(st.one_of(gen.harmonics(hmax), gen.harmonics(hmax), st.just([0]), st.just(list(range(4)))) if not wide
                 else gen.harmonics(40, max_n=14))
        N = draw(st.integers(1, 12 if wide else 4))
        need = 2 * max(h) + 2
        Nt = draw(st.one_of(st.just(need), st.integers(need // 2, max(40, need)).map(lambda k: 2 * k),
                            st.sampled_from([100, 128, 256, 1000, 1024] if wide else [64, 128])))
        sc = draw(st.sampled_from([3.0, 1e-6, 1e5])) if wide else 3.0
        return dict(h=h, N=N, Nt=Nt, X=draw(gen.mat(ref.nhc(h), N, sc)), order=draw(st.integers(0, 7)),
                    hd=draw(st.sampled_from(['int64', 'int64', 'int32', 'uint8'])))
    return dict(h=h, N=N, Nt=Nt, X=draw(gen.mat(ref.nhc(h), N, 3.0)), order=draw(st.integers(0, 5)),
                hd=draw(st.sampled_from(['int64', 'int64', 'int32', 'uint8'])))


def H(c):
    return np.array(c['h'], dtype=c['hd'])


@clause(sig, quick=1600, shards=2, rule='gaps in h or hmax>3 or order>1, coefficients non-zero')
def series_is_the_sum(c, t):
    """time_series_deriv gives the trigonometric sum (or its derivative) at every sample."""
    h, X = H(c), arr(c['X'])
    X0, h0 = X.copy(), h.copy()
    x = hu().time_series_deriv(c['Nt'], h, X, c['order'])
    want = ref.series(c['h'], X0, c['Nt'], c['order'])
    s = max(c['h'] + [1]) ** c['order'] * (np.abs(X0).sum() + 1e-3)
    t.close(x, want, 'time series', rtol=1e-11, scale=s)
    t.same(X, X0, 'coefficients modified')
    t.same(h, h0, 'harmonics modified')
    t.kept(lambda Y: hu().time_series_deriv(c['Nt'], h, Y, c['order']), X, 2 * X + 1, 'time series')
    hn = [k for k in c['h'] if k]
    t.label('order%d' % c['order'], 'zero' if c['h'][0] == 0 else 'nozero')
    t.nontrivial(np.any(X0) and (hn != list(range(1, len(hn) + 1)) or max(c['h']) > 3 or c['order'] > 1))


@clause(sig, quick=1600, shards=2, rule='non-zero coefficients')
def roundtrip(c, t):
    """coefficients -> samples -> coefficients is the identity, also through derivatives of order 4."""
    h, X = H(c), arr(c['X'])
    x = hu().time_series_deriv(c['Nt'], h, X, 0)
    t.close(hu().get_fourier_coeff(h, x), X, 'round trip', rtol=1e-11, atol=1e-13, scale=np.abs(X).sum())
    d4 = hu().get_fourier_coeff(h, hu().time_series_deriv(c['Nt'], h, X, 4))
    w = np.array([float(k) ** 4 for k in c['h'] for _ in range(2 if k else 1)])[:, None]
    t.close(d4, w * X, '4th derivative is k^4 times the signal', rtol=1e-10, atol=1e-12,
            scale=max(c['h'] + [1]) ** 4 * np.abs(X).sum())
    t.nontrivial(np.count_nonzero(X) > 1)


@st.composite
def anysig(draw):
    wide = draw(st.integers(0, 5)) == 0
    h = draw(st.one_of(gen.harmonics(9), st.just([0])) if not wide else gen.harmonics(40, max_n=12))
    Nt = 2 * draw(st.integers(max(h) + 1, max(h) + 14) if not wide else st.sampled_from([41, 50, 64, 100, 128]))
    N = draw(st.integers(1, 3))
    return dict(h=h, Nt=Nt, x=draw(gen.mat(Nt, N, 2.0)), hd=draw(st.sampled_from(['int64', 'uint8'])))


@clause(anysig, quick=1200, rule='signal has content outside of the requested harmonics')
def projection(c, t):
    """get_fourier_coeff is the Fourier projection of any sampled signal (content outside of h is ignored)."""
    h, x = H(c), arr(c['x'])
    x0 = x.copy()
    v = hu().get_fourier_coeff(h, x)
    t.close(v, ref.project(c['h'], x0), 'projection', rtol=1e-11, scale=np.abs(x0).sum() + 1e-3)
    t.same(x, x0, 'samples modified')
    t.kept(lambda y: hu().get_fourier_coeff(h, y), x, 2 * x + 1, 'coefficients')
    back = ref.series(c['h'], np.asarray(v), c['Nt'])
    t.nontrivial(np.max(np.abs(back - x0)) > 1e-6)
    # adding content at harmonics that are not requested changes nothing
    other = [k for k in range(1, c['Nt'] // 2) if k not in c['h']]
    if other:
        extra = np.cos(2 * np.pi * other[0] * np.arange(c['Nt']) / c['Nt'])[:, None]
        t.close(hu().get_fourier_coeff(h, x0 + extra), v, 'unrequested harmonic leaks', rtol=1e-10,
                scale=np.abs(x0).sum() + 1)


@clause(lambda: sig(jax=True), quick=160, shards=2, rule='non-zero coefficients')
def jax_equals_numpy(c, t):
    import tmdsimpy.jax.harmonic_utils as jh
    h, X = H(dict(c, hd='int64')), arr(c['X'])
    ht = tuple(c['h'])
    order = c['order'] % 4
    a = np.asarray(jh.time_series_deriv(c['Nt'], ht, X, order))
    s = max(c['h'] + [1]) ** order * (np.abs(X).sum() + 1e-3)
    t.close(a, ref.series(c['h'], X, c['Nt'], order), 'JAX time series', rtol=1e-11, scale=s)
    t.close(a, hu().time_series_deriv(c['Nt'], h, X, order), 'JAX vs NumPy series', rtol=1e-11, scale=s)
    y = a + np.cos(np.arange(c['Nt'])[:, None] ** 2)       # content at all frequencies
    b = np.asarray(jh.get_fourier_coeff(ht, y))
    t.close(b, ref.project(c['h'], y), 'JAX projection', rtol=1e-11, scale=s + 3)
    t.nontrivial(np.any(X))


@clause(lambda: st.tuples(st.lists(st.integers(0, 60), min_size=1, max_size=12, unique=True)).map(
    lambda a: dict(h=sorted(a[0]))), quick=400, rule='every case')
def number_of_components(c, t):
    h = np.array(c['h'])
    t.ok(int(hu().Nhc(h)) == ref.nhc(c['h']), 'Nhc', got=hu().Nhc(h), h=c['h'])
    if len(h) > 1:
        try:
            hu().Nhc(np.append(h, h[-1]))
        except AssertionError:
            pass
        else:
            t.ok(False, 'repeated harmonics accepted')
    t.nontrivial()
