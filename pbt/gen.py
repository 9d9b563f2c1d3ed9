"""Generators.  Every case is a JSON-able structure; all randomness comes from Hypothesis."""
import numpy as np
from hypothesis import strategies as st


_MASK = bytes(np.random.RandomState(20240607).randint(0, 256, 4096).astype(np.uint8))


def _dec16(b, scale):
    """First byte chooses the flavour; the rest is XORed with a fixed mask so that the simplest (all zero) bytes
    denote a generic vector (Hypothesis zeroes spans often, and zero vectors decide nothing)."""
    m, b = b[0], b[1:]
    n = len(b) // 2
    if 224 <= m < 234:
        return [0.0] * n
    v = []
    for k in range(n):
        j = (2 * k) % 4096
        i = ((b[2 * k] ^ _MASK[j]) << 8) | (b[2 * k + 1] ^ _MASK[j + 1])
        v.append((i - 32768) * scale / 32768.0)
    if 234 <= m < 244:                       # coarse grid: exact ties and zeros
        v = [round(x / scale * 4) * scale / 4 for x in v]
    elif m >= 244:                           # sparse
        v = [x if (b[2 * k] & 1) else 0.0 for k, x in enumerate(v)]
    return v


def vec(n, scale=1.0):
    """n numbers on a fine grid in [-scale, scale]."""
    return st.binary(min_size=2 * n + 1, max_size=2 * n + 1).map(lambda b: _dec16(b, scale))


def mat(r, c, scale=1.0):
    return vec(r * c, scale).map(lambda v: [v[i * c:(i + 1) * c] for i in range(r)])


def num(lo, hi, steps=4000):
    return st.integers(0, steps).map(lambda i: lo + (hi - lo) * i / steps)


def logn(lo, hi, steps=400):
    """log-uniform in [lo, hi] (positive)"""
    a, b = np.log10(lo), np.log10(hi)
    return st.integers(0, steps).map(lambda i: float('%.6g' % 10 ** (a + (b - a) * i / steps)))


def ints(lo, hi):
    return st.integers(lo, hi)


def harmonics(hmax=7, zero=None, must=(), min_n=1, max_n=6):
    """Sorted harmonic list. zero: True/False/None (either)."""
    body = st.sets(st.integers(1, hmax), min_size=min_n, max_size=max_n)
    z = st.booleans() if zero is None else st.just(zero)
    return st.tuples(z, body).map(
        lambda a: ([0] if a[0] else []) + sorted(set(a[1]) | set(must)))


def nhc(h):
    return sum(2 if k else 1 for k in h)


def spd(n, floor=0.3, scale=1.0):
    """Symmetric positive definite n x n."""
    def f(v):
        B = np.array(v).reshape(n, n)
        A = B @ B.T * scale + (floor * scale) * np.eye(n)
        A = 0.5 * (A + A.T)
        return np.round(A, 9).tolist()
    return vec(n * n, 1.0).map(f)


@st.composite
def qt(draw, N, Nnl, sym=None):
    """Local map Q (Nnl,N), T (N,Nnl): usually T = Q', sometimes independent."""
    if draw(st.integers(0, 3)) == 0:
        # selection of degrees of freedom or differences between two of them
        Q = []
        for _ in range(Nnl):
            r = [0.0] * N
            i, j = draw(st.integers(0, N - 1)), draw(st.integers(-1, N - 1))
            r[i] = 1.0
            if j >= 0 and j != i:
                r[j] = -1.0
            Q.append(r)
    else:
        Q = draw(mat(Nnl, N, 2.0))
    if sym is None:
        sym = draw(st.integers(0, 2)) > 0
    T = np.array(Q).T.tolist() if sym else draw(mat(N, Nnl, 2.0))
    return Q, T


@st.composite
def nt_for(draw, h, lo_mult=2, choices=(8, 16, 20, 32, 36, 50, 64, 128)):
    """Even sample count above 2*hmax+1"""
    need = lo_mult * max(h) + 2
    c = [n for n in choices if n >= need]
    return draw(st.sampled_from(c)) if c else need + need % 2
