"""C05 Nonlinear-force Jacobians are the derivatives of the returned force."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr
from pbt.fd import check_jac, check_dir, jitter

NPALL = forces.INST + forces.HYST


def point(x, s, seed):
    """Generic point, except for smooth forces: exact zeros included there (a polynomial has a derivative at zero)."""
    x = arr(x)
    if s['type'] not in forces.SMOOTH or seed % 2:
        return jitter(x, seed)
    if seed % 4 == 0:
        x = x * (np.random.default_rng(seed).random(x.shape) < 0.6)
    return x


def prep(f, s):
    if hasattr(f, 'init_history'):
        f.init_history()
    return f


@st.composite
def static(draw, types):
    N = draw(st.integers(1, 4))
    s = draw(forces.spec(types, N))
    nh = draw(st.integers(0, 3))
    hist = draw(gen.mat(nh, N, 1.5)) if nh else []
    return dict(N=N, s=s, hist=hist, X=draw(gen.vec(N, 1.5)), seed=draw(st.integers(0, 10 ** 6)))


def run_static(c, t):
    s = c['s']
    f = prep(forces.build(s), s)
    hyst = s['type'] not in forces.INST
    if hyst:
        for x in c['hist']:
            f.force(arr(x), update_hist=True)
    X = point(c['X'], s, c['seed'])
    F, J = f.force(X)[:2]
    n = check_jac(t, lambda y: f.force(y)[0], X, np.array(J), c['seed'], s['type'] + ' static', e=2e-6)
    t.label(s['type'], 'diff' if n else 'not-diff')
    t.nontrivial(n > 0)
    t.equal(np.array(f.force(X)[0]), np.array(F), 'evaluation not repeatable')
    t.kept(lambda y: f.force(y)[:2], X, 1.2 * X + .05, s['type'] + ' static')


@clause(lambda: static(NPALL), quick=1600, shards=2, rule='differentiable point with non-zero slope')
def static_numpy(c, t):
    run_static(c, t)


@clause(lambda: static(forces.ELDRY + forces.ROUGH), quick=500, shards=2,
        rule='differentiable point with non-zero slope')
def static_jax(c, t):
    run_static(c, t)


@st.composite
def hb(draw, types, jax=False, maxh=5):
    wide = not jax and draw(st.integers(0, 7)) == 0
    N = draw(st.integers(1, 3) if not wide else st.integers(4, 6))
    s = draw(forces.spec(types, N, big=wide))
    if jax:
        h, Nt = draw(st.sampled_from(forces.JAXCOMBO[1:3]))
        if s['type'] in forces.ROUGH or s['type'] in forces.JAXH:
            h, Nt = draw(st.sampled_from([([0, 1], 16), ([0, 1, 5], 32)]))
    else:
        h = draw(gen.harmonics(maxh, max_n=4) if not wide else gen.harmonics(9, max_n=5))
        Nt = draw(gen.nt_for(h, choices=(8, 16, 20, 32, 64) if not wide else (64, 100, 128)))
    return dict(N=N, s=s, h=h, Nt=Nt, w=draw(st.one_of(gen.num(0.1, 4), gen.num(-1, 1, 20))),
                U=draw(gen.vec(ref.nhc(h) * N, 1.5)), seed=draw(st.integers(0, 10 ** 6)))


def run_hb(c, t):
    s, h, w, U, Nt = c['s'], np.array(c['h']), c['w'], point(c['U'], c['s'], c['seed']), c['Nt']
    f = forces.build(s)
    out = f.aft(U, w, h, Nt=Nt)
    t.ok(len(out) == 3, 'three outputs')
    F, J, dw = [np.array(o) for o in out]
    t.ok(dw.shape == F.shape, 'shape of dF/dw', got=dw.shape)
    n = check_jac(t, lambda y: f.aft(y, w, h, Nt=Nt)[0], U, J, c['seed'], s['type'] + ' dF/dU', e=2e-6)
    check_dir(t, lambda y: f.aft(U, y[0], h, Nt=Nt)[0], np.array([w]), dw[:, None], np.ones(1),
              s['type'] + ' dF/dw', floor=1.0)
    t.kept(lambda y: f.aft(y, w, h, Nt=Nt), U, 1.2 * U + .05, s['type'] + ' harmonic', rtol=1e-10)
    t.label(s['type'], 'diff' if n else 'not-diff')
    t.nontrivial(n > 0)
    if forces.has_grad_flag(s['type']):
        o = f.aft(U, w, h, Nt=Nt, calc_grad=False)
        t.close(np.array(o[0]), F, 'force without gradient', rtol=1e-13, atol=1e-15)
    if s['type'] == 'cubdamp' and np.any(dw):
        t.label('dw')


@clause(lambda: hb(forces.INST), quick=1400, shards=2, rule='differentiable point with non-zero slope')
def harmonic_instantaneous(c, t):
    run_hb(c, t)


@clause(lambda: hb(forces.HYST, maxh=4), quick=700, shards=4, rule='differentiable point with non-zero slope')
def harmonic_hysteretic(c, t):
    run_hb(c, t)


@clause(lambda: hb(forces.ELDRY, True), quick=240, shards=2, rule='differentiable point with non-zero slope')
def harmonic_dry_friction(c, t):
    run_hb(c, t)


@clause(lambda: hb(forces.JAXH + forces.ROUGH, True), quick=240, shards=2,
        rule='differentiable point with non-zero slope')
def harmonic_jax(c, t):
    run_hb(c, t)


@st.composite
def loc(draw):
    ty = draw(st.sampled_from(forces.INST))
    n = draw(forces.nnl_for(ty))
    s = dict(type=ty, p=draw(forces.params(ty, n)), Q=np.eye(n).tolist(), T=np.eye(n).tolist())
    Nt = draw(st.integers(1, 6))
    return dict(s=s, u=draw(gen.mat(Nt, n, 1.5)), v=draw(gen.mat(Nt, n, 3.0)), seed=draw(st.integers(0, 10 ** 6)))


@clause(loc, quick=900, rule='differentiable point with non-zero slope')
def local_derivatives(c, t):
    s, u, v = c['s'], point(c['u'], c['s'], c['seed']), arr(c['v'])
    f = forces.build(s)
    ft, du, dv = f.local_force_history(u.copy(), v.copy())
    n = u.shape[1]

    def full(D):
        D = np.asarray(D, float)
        if D.ndim == 3:
            return D
        return np.einsum('tj,jk->tjk', D, np.eye(n))
    for k in range(len(u)):
        a = check_jac(t, lambda y: f.local_force_history(y[None, :], v[k:k + 1])[0][0], u[k], full(du)[k],
                      c['seed'] + k, s['type'] + ' d/du', ndir=1, cols=1, e=2e-6)
        b = check_jac(t, lambda y: f.local_force_history(u[k:k + 1], y[None, :])[0][0], v[k], full(dv)[k],
                      c['seed'] + k, s['type'] + ' d/dv', ndir=1, cols=1, e=2e-6, floor=1.0)
        t.nontrivial(a + b > 0)
    t.label(s['type'])
