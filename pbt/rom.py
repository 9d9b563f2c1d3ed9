"""Backbones and the documented single nonlinear mode equation."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import arr


@st.composite
def backbone(draw, N=None, h=None, M=None, maxh=5, var=0.25, linear=False):
    wide = draw(st.integers(0, 7)) == 0
    N = draw(st.integers(1, 3) if not wide else st.integers(4, 6)) if N is None else N
    h = draw(gen.harmonics(draw(st.sampled_from([maxh, maxh, maxh, 2 * maxh + 1])), must=(1,), max_n=3)) if h is None else h
    M = draw(st.integers(2, 8) if not wide else st.integers(9, 40)) if M is None else M
    n = ref.nhc(h) * N
    return dict(N=N, h=h, M=M, base=draw(gen.vec(n, 1.0)), var=[] if linear else draw(gen.mat(M, n, var)),
                w=draw(gen.num(0.5, 3)), dw=[] if linear else draw(gen.vec(M, 0.2)),
                z=draw(gen.logn(2e-3, 0.4, 60)), dz=[] if linear else draw(gen.vec(M, 0.5)),
                q0=draw(gen.num(-4, 2, 60)), dq=[draw(gen.num(0.02, 0.5, 40)) for _ in range(M - 1)],
                linear=linear)


def rows(b):
    """(M, n+3) EPMC backbone: [shape, w, xi, log10 q]; first harmonic kept away from zero."""
    n, M, N = len(b['base']), b['M'], b['N']
    base = arr(b['base'])
    i = N if 0 in b['h'] else 0
    base[i:i + N] += np.where(base[i:i + N] >= 0, 0.5, -0.5)
    U = base + (0 if b['linear'] else arr(b['var']))
    w = b['w'] * (1 + (np.zeros(M) if b['linear'] else arr(b['dw'])))
    z = b['z'] * (1 + (np.zeros(M) if b['linear'] else arr(b['dz'])))
    lq = b['q0'] + np.r_[0, np.cumsum(b['dq'])]
    return np.hstack((U * np.ones((M, 1)), w[:, None], (2 * w * z)[:, None], lq[:, None]))


def comp(U, N, h, k):
    """complex coefficient Xc - i Xs of harmonic k"""
    j = ref.nhc([x for x in h if x < k]) * N
    return U[..., j:j + N] - 1j * U[..., j + N:j + 2 * N]


def put(U, N, h, k, z):
    j = ref.nhc([x for x in h if x < k]) * N
    U[..., j:j + N], U[..., j + N:j + 2 * N] = z.real, -z.imag


def delayed(U, N, h, th):
    """every harmonic k delayed by k*th (U may have several rows; th scalar or per row)"""
    V = np.array(U, dtype=float)
    for k in h:
        if k:
            put(V, N, h, k, comp(U, N, h, k) * np.exp(-1j * k * np.atleast_1d(th))[:, None] if V.ndim == 2 else
                comp(U, N, h, k) * np.exp(-1j * k * th))
    return V


def dyn(w, z, Om):
    return w ** 2 - Om ** 2 + 2j * z * w * Om


def roots(w, z, q, f):
    """Frequencies where |D(Om)| q = f; returns list of (Om, sign), None if within rounding of a boundary."""
    p2 = w ** 2 * (1 - 2 * z ** 2)
    a = p2 ** 2 - w ** 4 + (f / q) ** 2
    s = w ** 4 + (f / q) ** 2
    if abs(a) < 1e-11 * s:
        return None
    if a < 0:
        return []
    r = np.sqrt(a)
    out = []
    for sg in (-1, 1):
        v = p2 + sg * r
        if abs(v) < 1e-11 * s ** 0.5:
            return None
        if v > 0:
            out.append((np.sqrt(v), sg))
    return out


def interp(X, v, r):
    """Row of X linearly interpolated where the increasing r equals v (NaN outside)."""
    if v < r[0] or v > r[-1]:
        return np.full(X.shape[1], np.nan)
    k = min(max(int(np.searchsorted(r, v, side='right')) - 1, 0), len(r) - 2) if len(r) > 1 else 0
    if len(r) == 1:
        return X[0].copy()
    s = (v - r[k]) / (r[k + 1] - r[k])
    return (1 - s) * X[k] + s * X[k + 1]
