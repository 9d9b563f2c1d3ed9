"""C23 Branch interpolation is exact for its polynomial class and hits the data."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen
from pbt.core import clause, arr


def grid(c):
    """Strictly increasing parameter values."""
    return c['l0'] + c['ls'] * np.r_[0, np.cumsum(c['dl'])]


@st.composite
def branch(draw, Mmin=2):
    M = draw(st.integers(Mmin, 8))
    n = draw(st.sampled_from([0, 1, 2, 3, 5]) if draw(st.integers(0, 9)) == 0 else st.integers(1, 6))
    return dict(M=M, n=n, l0=draw(st.sampled_from([-7.0, -1.0, 0.0, 0.5, 3.0, 100.0])), ls=draw(st.sampled_from([1e-3, 0.1, 1.0, 1.0, 30.0])),
                dl=[draw(gen.logn(0.02, 3.0)) for _ in range(M - 1)], Y=draw(gen.mat(M, n, 1.0)), D=draw(gen.mat(M, n, 1.0)),
                mag=draw(st.sampled_from([1e-8, 1e-3, 1.0, 1.0, 1e5])),
                P=draw(gen.mat(4, n, 1.0)), g=[draw(gen.logn(1e-3, 1e3)) for _ in range(M)],
                q=draw(st.lists(gen.num(0, 1, 4000), min_size=1, max_size=8)), knots=draw(st.lists(st.integers(0, M - 1), max_size=4)),
                perm=draw(st.integers(0, 10 ** 6)))


def queries(c, lam):
    """unsorted mixture of interior values, stored values and both ends, with repetitions"""
    q = np.r_[lam[0] + arr(c['q']) * (lam[-1] - lam[0]), lam[np.array(c['knots'], dtype=int)], lam[0], lam[-1]]
    q = np.clip(q, lam[0], lam[-1])
    return np.random.RandomState(c['perm']).permutation(q)


def hermite(lam, Y, D, q):
    """Cubic Hermite basis functions, written out (D = dY/dlam)."""
    out = np.zeros((q.size, Y.shape[1]))
    for i, x in enumerate(q):
        k = min(max(int(np.searchsorted(lam, x, side='right')) - 1, 0), lam.size - 2)
        H = lam[k + 1] - lam[k]
        s = (x - lam[k]) / H
        out[i] = ((1 + 2 * s) * (1 - s) ** 2 * Y[k] + s * (1 - s) ** 2 * H * D[k]
                  + s * s * (3 - 2 * s) * Y[k + 1] + s * s * (s - 1) * H * D[k + 1])
    return out


def scaled(c, lam, D):
    """prediction directions: any positive multiple of (dY/dlam, 1)"""
    return np.hstack((D, np.ones((lam.size, 1)))) * arr(c['g'])[:, None]


def dscale(Y, D, lam):
    return max(np.abs(Y).max(initial=0), (np.abs(D).max(initial=0) * np.diff(lam).max())) + 1e-300


# coordinates far from zero with a narrow grid cancel: the spacing of floating point numbers in lam is unavoidable
def ltol(lam):
    return 1e-9 + 64 * np.finfo(float).eps * np.abs(lam).max() / np.diff(lam).min()


@clause(lambda: branch(), quick=900, rule='interior query strictly between stored points, at least one interpolated column')
def hermite_matches_basis(c, t):
    from tmdsimpy.postprocess import continuation as pc
    lam = grid(c)
    Y, D = arr(c['Y']).reshape(c['M'], c['n']) * c['mag'], arr(c['D']).reshape(c['M'], c['n']) * c['mag'] / c['ls']
    X, G, q = np.hstack((Y, lam[:, None])), scaled(c, lam, D), queries(c, lam)
    X0, G0, q0 = X.copy(), G.copy(), q.copy()
    out = pc.hermite_interp(X, G, q)
    t.same(X, X0, 'points modified'); t.same(G, G0, 'gradients modified'); t.same(q, q0, 'requested values modified')
    t.ok(out.shape == (q.size, c['n'] + 1), 'shape', got=out.shape)
    t.close(out[:, -1], q, 'last column is the requested parameter', rtol=1e-14)
    tol = ltol(lam)
    t.close(out[:, :-1], hermite(lam, Y, D, q), 'Hermite interpolation', rtol=tol, scale=dscale(Y, D, lam))
    # through the stored points, whichever order they are asked for
    for k in c['knots']:
        t.close(out[q == lam[k], :-1][0], Y[k], 'passes through a stored point', rtol=1e-11, scale=dscale(Y, D, lam))
    # the same values through the front end
    o2 = pc.hermite_upsample(X, G, new_lams=q)
    t.close(o2, out, 'hermite_upsample with requested values', rtol=1e-11, scale=max(dscale(Y, D, lam), np.abs(lam).max()))
    t.close(pc.hermite_upsample(X, G, c['M'] % 4 + 1, q), out, 'requested values override the up-sampling factor', rtol=1e-11,
            scale=max(dscale(Y, D, lam), np.abs(lam).max()))
    t.nontrivial(c['n'] > 0 and not np.all(np.isin(q, lam)))


@clause(lambda: branch(), quick=700, rule='cubic with non-zero leading coefficient evaluated between stored points')
def hermite_exact_for_cubics(c, t):
    from tmdsimpy.postprocess import continuation as pc
    lam = grid(c)
    P = arr(c['P']).reshape(4, c['n']) * c['mag']
    L = lam[-1] - lam[0]
    f = lambda x: sum(P[j] * (((x - lam[0]) / L)[:, None]) ** j for j in range(4))
    d = lambda x: sum(j * P[j] * (((x - lam[0]) / L)[:, None]) ** (j - 1) for j in range(1, 4)) / L
    X, G, q = np.hstack((f(lam), lam[:, None])), scaled(c, lam, d(lam)), queries(c, lam)
    sc = np.abs(P).sum(0).max(initial=0) + 1e-300
    out = pc.hermite_interp(X, G, q)
    t.close(out[:, :-1], f(q), 'cubic branch', rtol=1e-9 + 3 * ltol(lam), scale=sc)
    # insensitive to the (positive) length of each prediction direction
    G2 = G * (0.5 + np.arange(1, c['M'] + 1))[:, None]
    t.close(pc.hermite_interp(X, G2, q)[:, :-1], out[:, :-1], 'depends on the length of the directions', rtol=1e-9, scale=sc)
    up = pc.hermite_upsample(X, G, 4)
    t.close(up[:, :-1], f(up[:, -1]), 'up-sampled cubic branch', rtol=1e-9 + 3 * ltol(lam), scale=sc)
    t.nontrivial(c['n'] > 0 and np.any(np.abs(P[3]) > 0.05 * c['mag']))


@st.composite
def upcase(draw):
    c = draw(branch())
    c['freq'] = draw(st.sampled_from([None, 1, 2, 3, 5, 7, 10, 10, 13, 49]))
    return c


@clause(lambda: upcase(), quick=700, rule='factor above 1 and at least 3 stored points')
def upsample_layout(c, t):
    from tmdsimpy.postprocess import continuation as pc
    lam = grid(c)
    Y, D = arr(c['Y']).reshape(c['M'], c['n']) * c['mag'], arr(c['D']).reshape(c['M'], c['n']) * c['mag'] / c['ls']
    X, G = np.hstack((Y, lam[:, None])), scaled(c, lam, D)
    X0, G0 = X.copy(), G.copy()
    k = c['freq'] or 10
    out = pc.hermite_upsample(X, G) if c['freq'] is None else pc.hermite_upsample(X, G, upsample_freq=k)
    t.same(X, X0, 'points modified'); t.same(G, G0, 'gradients modified')
    t.ok(out.shape == ((c['M'] - 1) * k + 1, c['n'] + 1), 'number of points', got=out.shape, factor=k, M=c['M'])
    want = np.concatenate([lam[i] + (lam[i + 1] - lam[i]) * np.arange(k) / k for i in range(c['M'] - 1)] + [lam[-1:]])
    lsc = max(np.abs(lam).max(), lam[-1] - lam[0])
    t.close(out[:, -1], want, 'parameter values equally spaced between the stored points', rtol=1e-12, scale=lsc)
    sc = dscale(Y, D, lam)
    tol = 1e-9 + 1e-12 * lsc / np.diff(lam).min() * 4
    t.close(out[::k, :-1], Y, 'original points kept', rtol=tol, scale=sc)
    t.close(out[:, :-1], hermite(lam, Y, D, np.clip(want, lam[0], lam[-1])), 'points in between', rtol=tol, scale=sc)
    t.nontrivial(k > 1 and c['M'] > 2 and c['n'] > 0)


@clause(lambda: branch(), quick=300, rule='one of the documented requirements broken')
def hermite_rejects_invalid(c, t):
    """Documented requirements: increasing parameter, positive parameter direction, requests inside of the data."""
    from tmdsimpy.postprocess import continuation as pc
    lam = grid(c)
    Y, D = arr(c['Y']).reshape(c['M'], c['n']), arr(c['D']).reshape(c['M'], c['n'])
    X, G, q = np.hstack((Y, lam[:, None])), scaled(c, lam, D), queries(c, lam)
    L = lam[-1] - lam[0]
    k = c['perm'] % c['M']

    def rejects(f, what):
        try:
            f()
        except Exception:
            return
        t.ok(False, what + ' accepted')
    rejects(lambda: pc.hermite_interp(X, G, np.r_[q, lam[-1] + 0.01 * L]), 'request above the data')
    rejects(lambda: pc.hermite_interp(X, G, np.r_[lam[0] - 0.01 * L, q]), 'request below the data')
    Xd, Gd = X.copy(), G.copy()
    Gd[k, -1] = -Gd[k, -1]
    rejects(lambda: pc.hermite_interp(X, Gd, q), 'negative parameter direction')
    Gd[k, -1] = 0.0
    rejects(lambda: pc.hermite_interp(X, Gd, q), 'zero parameter direction')
    j = c['perm'] % (c['M'] - 1)
    Xd[[j, j + 1], -1] = Xd[[j + 1, j], -1]
    rejects(lambda: pc.hermite_interp(Xd, G, q), 'decreasing parameter')
    rejects(lambda: pc.linear_interp(Xd, q), 'decreasing parameter (linear)')
    t.nontrivial()


@st.composite
def lincase(draw):
    c = draw(branch(Mmin=draw(st.sampled_from([1, 2, 2, 2]))))
    c.update(ref=draw(st.booleans()), r0=draw(st.sampled_from([-2.0, 0.0, 1e4])), dr=[draw(gen.logn(0.02, 3.0)) for _ in range(c['M'] - 1)],
             out=draw(st.lists(gen.logn(1e-6, 2.0).flatmap(lambda x: st.sampled_from([x, -x])), max_size=4)),
             scalar=draw(st.integers(0, 4)) == 0)
    return c


@clause(lambda: lincase(), quick=1200, rule='request strictly between stored points on a branch of 2 or more points')
def linear_matches_definition(c, t):
    from tmdsimpy.postprocess import continuation as pc
    lam = grid(c)
    X = np.hstack((arr(c['Y']).reshape(c['M'], c['n']) * c['mag'], lam[:, None]))
    r = c['r0'] + np.r_[0, np.cumsum(c['dr'])] if c['ref'] else lam
    L = max(r[-1] - r[0], 0.1 * c['ls'])
    q = np.r_[queries(c, r), [r[-1] + L * x if x > 0 else r[0] + L * x for x in c['out']]]
    q = np.random.RandomState(c['perm'] + 1).permutation(q)
    if c['scalar']:
        q = q[0]
    X0, q0, r0 = X.copy(), np.copy(q), r.copy()
    out = pc.linear_interp(X, q, reference_values=r) if c['ref'] else pc.linear_interp(X, q)
    t.same(X, X0, 'points modified'); t.same(q, q0, 'requested values modified'); t.same(r, r0, 'reference values modified')
    q = np.atleast_1d(q)
    t.ok(out.shape == (q.size, X.shape[1]), 'shape', got=out.shape)
    interior = False
    tol = 1e-11 + (64 * np.finfo(float).eps * np.abs(r).max() / np.diff(r).min() if c['M'] > 1 else 0)
    for i, x in enumerate(q):
        if x < r[0] or x > r[-1]:
            t.ok(np.all(np.isnan(out[i])), 'request outside of the data not marked as not available', value=x, row=out[i])
            t.label('outside')
            continue
        t.ok(np.all(np.isfinite(out[i])), 'request inside of the data not available', value=x, row=out[i], lo=r[0], hi=r[-1])
        k = int(np.searchsorted(r, x, side='right')) - 1
        if k >= c['M'] - 1:
            t.close(out[i], X[-1], 'last stored point', rtol=1e-13, elem=True)
            t.label('last point')
            continue
        s = (x - r[k]) / (r[k + 1] - r[k])
        want = (1 - s) * X[k] + s * X[k + 1]
        t.close(out[i, :-1], want[:-1], 'linear interpolation', rtol=tol, scale=np.abs(X[:, :-1]).max(initial=0) + 1e-300)
        t.close(out[i, -1], want[-1], 'linear interpolation of the parameter', rtol=tol, scale=np.abs(lam).max())
        interior |= 0 < s < 1
    t.label('scalar' if c['scalar'] else 'vector', 'reference' if c['ref'] else 'parameter')
    t.nontrivial(interior and c['n'] > 0)


@clause(lambda: lincase(), quick=400, rule='branch of 2 or more points, affine data')
def linear_exact_for_affine(c, t):
    """Affine in the reference values => reproduced wherever requested; refining a branch at requests changes nothing."""
    from tmdsimpy.postprocess import continuation as pc
    if c['M'] < 2:
        t.skip('one point')
    r = c['r0'] + np.r_[0, np.cumsum(c['dr'])]
    P = np.hstack((arr(c['P']).reshape(4, c['n'])[:2] * c['mag'], np.array([[1.0], [2.0]]))) 
    f = lambda x: P[0] + P[1] * ((x - r[0]) / (r[-1] - r[0]))[:, None]
    q = queries(c, r)
    tol = 1e-11 + 64 * np.finfo(float).eps * np.abs(r).max() / np.diff(r).min()
    t.close(pc.linear_interp(f(r), q, r), f(q), 'affine branch', rtol=tol, scale=np.abs(P).sum(0).max())
    X = np.hstack((arr(c['Y']).reshape(c['M'], c['n']) * c['mag'], r[:, None]))
    qs = np.unique(np.r_[np.sort(q), r])
    if np.diff(qs).min() < 1e-6 * np.diff(r).min():
        t.skip('requests nearly coincide')
    fine = pc.linear_interp(X, qs)
    fine[:, -1] = qs
    z = r[0] + (r[-1] - r[0]) * np.linspace(0, 1, 23)
    z = np.clip(z, r[0], r[-1])
    t.close(pc.linear_interp(fine, z)[:, :-1], pc.linear_interp(X, z)[:, :-1], 'piecewise linear branch refined',
            rtol=tol * 100 + 1e-12 / np.diff(qs).min() * np.abs(r).max() * 1e-2, scale=np.abs(X[:, :-1]).max(initial=0) + 1e-300)
    t.nontrivial(c['n'] > 0)
