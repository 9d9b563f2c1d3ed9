"""Derivative checks against finite differences of the returned value."""
import numpy as np


def direction(n, seed):
    return np.random.RandomState(seed % (2 ** 31)).uniform(-1, 1, n)


def check_dir(t, F, X, J, d, msg, e=1e-5, rtol=2e-6, floor=0.0):
    """J @ d against the derivative of F at X along d.

    One-sided slopes decide differentiability: where they disagree by more than 1e-3 the point is discarded
    (returns False), smaller disagreement (curvature) is added to the tolerance."""
    X = np.asarray(X, dtype=float)
    e = e * min(1.0, 10 * getattr(t, 'amp', 1.0))
    f = (lambda y: np.array(F(y), dtype=float))
    F0 = f(X)
    J = np.asarray(J, dtype=float)
    t.ok(J.ndim == 2 and J.shape == (F0.size, X.size), '%s: Jacobian shape %s for %d values and %d unknowns'
         % (msg, J.shape, F0.size, X.size))
    t.ok(np.all(np.isfinite(F0)), msg + ': value not finite')
    t.ok(np.all(np.isfinite(J)), msg + ': Jacobian not finite')
    if getattr(t, 'rest', False):
        return False
    Fp, Fm = f(X + e * d), f(X - e * d)
    e2 = e / 4
    Gp, Gm = f(X + e2 * d), f(X - e2 * d)
    Dp, Dm = (Fp - F0) / e, (F0 - Fm) / e
    D, D2 = 0.5 * (Dp + Dm), (Gp - Gm) / (2 * e2)
    Jd = J @ d
    sc = max(np.max(np.abs(D), initial=0), np.max(np.abs(Jd), initial=0))
    gap = max(np.max(np.abs(Dp - Dm), initial=0), np.max(np.abs(D - D2), initial=0))
    base = np.max(np.abs(F0), initial=0) + floor
    if gap > 1e-3 * sc + 1e-9 * base / e:
        return False
    tol = rtol * sc + 0.6 * gap + 3e-14 * base / e + 1e-10
    err = np.abs(Jd - D2)
    if np.any(~(err <= tol)):
        i = int(np.nanargmax(err))
        t.ok(False, '%s: derivative differs by %.3e (tol %.3e) in row %d: got %r, finite difference %r'
             % (msg, err[i], tol, i, float(Jd[i]), float(D2[i])))
    return sc > 1e-8


def jitter(x, seed, scale=1e-3):
    """Move off exact transition points (a grid point may sit exactly on a tie of the law)."""
    x = np.asarray(x, dtype=float)
    return x + scale * np.random.RandomState((seed + 7919) % (2 ** 31)).uniform(-1, 1, x.shape)


def check_jac(t, F, X, J, seed, msg, ndir=2, cols=2, **k):
    """Random directions plus a few single columns.  Returns number of informative directions."""
    n = np.asarray(X).size
    r = np.random.RandomState(seed % (2 ** 31))
    ds = [r.uniform(-1, 1, n) for _ in range(ndir)]
    for _ in range(cols):
        e = np.zeros(n)
        e[r.randint(n)] = 1.0
        ds.append(e)
    return sum(bool(check_dir(t, F, X, J, d, msg, **k)) for d in ds)
