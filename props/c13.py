"""C13 Base excitation equals the system with prescribed base motion."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac


@st.composite
def flags(draw, N):
    f = draw(st.lists(st.booleans(), min_size=N, max_size=N))
    if not any(f):
        f[draw(st.integers(0, N - 1))] = True
    if all(f):
        f[draw(st.integers(0, N - 1))] = False
    return f


@st.composite
def case(draw, types=systems.ALLFREQ, jax=False):
    N = 2 if jax else draw(st.integers(2, 4))
    c = draw(systems.hb_jax_case() if jax else systems.hb_case(types, N=N, maxh=4, sym=False))
    c['base'] = draw(flags(N))
    return c


def mask(c):
    return np.tile(np.array(c['base']), ref.nhc(c['h']))


def _res(c, t):
    s, h = c['s'], np.array(c['h'])
    U = systems.motion(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    m = mask(c)
    flag = np.array(c['base'])
    vs = systems.warm(systems.build(s), s, c)
    Uw, Ub = np.hstack((U[~m], c['w'])), U[m].copy()
    ins = [Uw.copy(), Ub.copy(), flag.copy(), h.copy()]
    out = vs.hbm_base_res(Uw, Ub, flag, h, Nt=c['Nt'])
    for a, b, n in zip(ins, (Uw, Ub, flag, h), ('Uw', 'Ub', 'base_flag', 'h')):
        t.same(b, a, n + ' modified')
    want, sc = systems.residual(s, U, c['w'], c['h'], c['Nt'])
    want = want[~m]
    t.close(np.array(out[0]), want, 'free rows', rtol=1e-9, atol=1e-13, scale=sc)
    J = np.hstack((np.array(out[1]), np.array(out[2]).reshape(-1, 1)))
    t.kept(lambda X: vs.hbm_base_res(X, Ub, flag, h, Nt=c['Nt']), Uw, 1.1 * Uw + .01, 'residual')
    if c['seed'] % 2:
        check_jac(t, lambda X: vs.hbm_base_res(X, Ub, flag, h, Nt=c['Nt'])[0], Uw, J, c['seed'], 'Jacobian')
        t.label('fd')
    t.label('N%d' % s['N'], 'base%d' % flag.sum(), 'nf%d' % len(s['forces']))
    t.nontrivial(np.abs(Ub).max() > 0 and np.abs(want).max() > 0 and len(s['forces']) > 0)


@clause(case, quick=1000, shards=4, rule='moving base and nonlinear forces')
def prescribed_motion(c, t):
    """Free rows of the full reference equation of motion under the prescribed base motion; Jacobians."""
    _res(c, t)


@clause(lambda: case(jax=True), quick=60, rule='moving base and nonlinear forces')
def compiled_forces(c, t):
    _res(c, t)


@st.composite
def frf_case(draw):
    N = draw(st.integers(2, 5))
    s = draw(systems.system(nf=(0, 0), N=N, damp='ab'))
    base = draw(flags(N))
    rigid = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if rigid:                           # free part not attached to the ground or the base
        keep = np.array(base) if rigid == 1 else np.arange(N) != base.index(False)
        if rigid == 1:
            K = np.array(s['K'])
            n = int((~keep).sum())
            P = np.eye(n) - 1.0 / n
            K[np.ix_(~keep, ~keep)] = P @ K[np.ix_(~keep, ~keep)] @ P
            K[np.ix_(~keep, keep)] = P @ K[np.ix_(~keep, keep)]
            K[np.ix_(keep, ~keep)] = K[np.ix_(~keep, keep)].T
        else:
            K = np.array(s['K']) * np.outer(keep, keep)
        s['K'] = K.tolist()
    return dict(s=s, base=base, rigid=rigid, Ub=[x * m for m in [draw(st.sampled_from([1.0, 1.0, 1.0, 25.0, 1e-4]))] for x in draw(gen.vec(2, 2.0))],
                w=draw(st.lists(gen.num(0.1, 4, 390), min_size=1, max_size=4)), less=draw(st.integers(0, 3)) == 0,
                neigs=draw(st.integers(1, 6)))


def frf_parts(c, t):
    s = c['s']
    M, C, K = systems.mats(s)
    b = np.array(c['base'])
    f = ~b
    nf = int(f.sum())
    sub = (lambda A, r, q: A[np.ix_(r, q)])
    Ub = c['Ub'][0] - 1j * c['Ub'][1]          # u = Re(Ub exp(iwt))
    out = []
    for w in c['w']:
        D = K - w ** 2 * M + 1j * w * C
        rhs = -sub(D, f, b).sum(axis=1) * Ub
        A = sub(D, f, f)
        if np.linalg.cond(A) > 1e7:
            t.skip('undamped resonance')
        out.append((w, A, rhs))
    return out, b, nf


@clause(frf_case, quick=900, shards=2, rule='moving base coupled to the free DOFs')
def frequency_response(c, t):
    """All modes: the direct complex solution of the free rows, which also is a zero of the harmonic residual."""
    from tmdsimpy.solvers import NonlinearSolver
    s = c['s']
    parts, b, nf = frf_parts(c, t)
    vs = systems.warm(systems.build(s), s, c)
    w, Ub = arr(c['w']), arr(c['Ub'])
    ins = (w.copy(), Ub.copy(), b.copy())
    X = vs.linear_frf_base(w, Ub, b, NonlinearSolver(), neigs=max(nf, c['neigs']))
    for a, q, n in zip(ins, (w, Ub, b), ('w', 'Ub', 'base_flag')):
        t.same(q, a, n + ' modified')
    t.ok(X.shape == (len(w), 2 * nf + 1), 'layout %s' % (X.shape,))
    t.close(X[:, -1], w, 'frequency column', rtol=1e-15)
    for i, (wi, A, rhs) in enumerate(parts):
        x = np.linalg.solve(A, rhs)
        want = np.hstack((x.real, -x.imag))
        t.close(X[i, :-1], want, 'base response', rtol=1e-10 * np.linalg.cond(A), atol=1e-12)
        full = np.tile(b, 2)
        Uv = np.zeros(2 * s['N'])
        Uv[full] = np.repeat(Ub, int(b.sum()))
        r = vs.hbm_base_res(X[i], Uv[full], b, np.array([1]))[0]
        t.close(r, 0 * r, 'harmonic residual at the response', rtol=0,
                atol=1e-11 + 1e-9 * np.linalg.cond(A) ** .5 * (np.abs(A).max() * np.abs(X[i]).max() + np.abs(rhs).max()))
    t.label('base%d' % b.sum(), 'free%d' % nf, *['rigid body mode'] * bool(c['rigid']))
    t.nontrivial(all(np.abs(p[2]).max() > 1e-6 for p in parts))


@clause(frf_case, quick=300, rule='fewer modes than free DOFs')
def truncated_response(c, t):
    """With fewer modes: the modal sum over the lowest modes with the base at rest."""
    import scipy.linalg as sl
    from tmdsimpy.solvers import NonlinearSolver
    parts, b, nf = frf_parts(c, t)
    n = min(c['neigs'], nf)
    M, C, K = systems.mats(c['s'])
    f = ~b
    lam, V = sl.eigh(K[np.ix_(f, f)], M[np.ix_(f, f)])
    if n < nf and lam[n] - lam[n - 1] < 1e-6 * lam[-1]:
        t.skip('mode order not defined')
    V = V[:, :n]
    X = systems.warm(systems.build(c['s']), c['s'], c).linear_frf_base(arr(c['w']), arr(c['Ub']), b, NonlinearSolver(), neigs=n)
    for i, (wi, A, rhs) in enumerate(parts):
        q = np.linalg.solve(V.T @ A @ V, V.T @ rhs)
        x = V @ q
        t.close(X[i, :-1], np.hstack((x.real, -x.imag)), 'modal sum', rtol=1e-9 * np.linalg.cond(A), atol=1e-12)
    t.label('modes%d of %d' % (n, nf))
    t.nontrivial(n < nf)
