"""C16 Linear frequency response solves the linear equation of motion."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr


@st.composite
def case(draw):
    N = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 10)))
    s = draw(systems.system(nf=(0, 0), N=N, damp='ab'))
    rigid = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if rigid:
        s = systems.float_free(s, rigid)
    return dict(s=s, F=draw(gen.vec(N, 3.0)), G=draw(st.one_of(st.none(), gen.vec(N, 3.0))),
                w=draw(st.lists(gen.num(0.05, 5, 495), min_size=1, max_size=6)), neigs=draw(st.integers(1, N + 2)),
                al=draw(gen.num(-3, 3)), F2=draw(gen.vec(N, 3.0)), jaxsol=draw(st.integers(0, 3)) == 0,
                repeat=draw(st.booleans()), own=draw(st.booleans()), rigid=rigid)


def solver(c):
    if c['jaxsol']:
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        return NonlinearSolverOMP()
    from tmdsimpy.solvers import NonlinearSolver
    return NonlinearSolver()


def dyn(c, t):
    M, C, K = systems.mats(c['s'])
    out = []
    for w in c['w']:
        A = K - w ** 2 * M + 1j * w * C
        if np.linalg.cond(A) > 1e7:
            t.skip('undamped resonance')
        out.append(A)
    return out


def frf(vs, c, n, F, G, sv=None):
    w = arr(c['w'])
    k = {} if G is None else dict(Flsin=arr(G))
    ins = (w.copy(), arr(F).copy())
    F = arr(F)
    X = vs.linear_frf(w, F, solver(c) if sv is None else sv, neigs=n, **k)
    assert np.array_equal(w, ins[0]) and np.array_equal(F, ins[1])
    return X


def load(F, G):
    return arr(F) - 1j * (arr(G) if G is not None else 0.0)


def labels(c, t):
    t.label('N%d' % c['s']['N'], 'sine' if c['G'] is not None else 'cos only', 'OMP' if c['jaxsol'] else 'base')
    if c['rigid']:
        t.label('rigid body mode')
    t.nontrivial(np.abs(c['F']).max() > 0 and any(c['s']['ab']))


@clause(case, quick=1200, shards=3, rule='damped, non-zero load')
def all_modes(c, t):
    """All modes: direct complex solution, layout [cos, sin, w] per frequency; independent of earlier calls and of the
    nonlinear forces attached."""
    A = dyn(c, t)
    N = c['s']['N']
    vs = systems.warm(systems.build(c['s']), c['s'], c)
    sv = solver(c)
    if c['repeat']:
        vs.linear_frf(arr(c['w']), arr(c['F2']), sv, neigs=1)
    X = frf(vs, c, max(c['neigs'], N), c['F'], c['G'], sv)
    t.ok(X.shape == (len(A), 2 * N + 1), 'layout %s' % (X.shape,))
    t.close(X[:, -1], arr(c['w']), 'frequency column', rtol=1e-15)
    t.kept(lambda F: frf(vs, c, max(c['neigs'], N), F, c['G'], sv), arr(c['F']), arr(c['F2']), 'response', rtol=1e-9)
    for i, a in enumerate(A):
        x = np.linalg.solve(a, load(c['F'], c['G']))
        t.close(X[i, :-1], np.hstack((x.real, -x.imag)), 'response at w=%r' % c['w'][i],
                rtol=1e-11 * np.linalg.cond(a) + 1e-11, atol=1e-13)
        Fl = np.hstack((arr(c['F']), arr(c['G']) if c['G'] is not None else np.zeros(N)))
        r = vs.hbm_res(X[i], Fl, np.array([1]))[0]
        t.close(r, 0 * r, 'harmonic residual', rtol=0,
                atol=1e-10 * (np.abs(a).max() * np.abs(X[i]).max() * N + np.abs(Fl).max()) + 1e-12)
    labels(c, t)


@clause(case, quick=400, rule='damped, non-zero load')
def linearity(c, t):
    """Linear in the force for any number of modes; the sine load is the cosine load a quarter period later."""
    dyn(c, t)
    vs = systems.warm(systems.build(c['s']), c['s'], c)
    N, n, al = c['s']['N'], c['neigs'], c['al']
    G = arr(c['G']) if c['G'] is not None else None
    a = frf(vs, c, n, c['F'], G)[:, :-1]
    b = frf(vs, c, n, c['F2'], None)[:, :-1]
    s = frf(vs, c, n, arr(c['F']) + al * arr(c['F2']), G)[:, :-1]
    sc = np.abs(a).max() + abs(al) * np.abs(b).max()
    t.close(s, a + al * b, 'superposition', rtol=1e-10, atol=1e-14, scale=sc)
    q = frf(vs, c, n, np.zeros(N), c['F2'])[:, :-1]
    # load sin(t) = cos(t - pi/2): response (a cos + b sin)(t - pi/2) = a sin - b cos
    t.close(q, np.hstack((-b[:, N:], b[:, :N])), 'sine load is the delayed cosine load', rtol=1e-10, atol=1e-14,
            scale=np.abs(b).max())
    one = vs.linear_frf(arr(c['w'])[-1:], arr(c['F2']), solver(c), neigs=n)
    t.close(one[0, :-1], b[-1], 'independent of the other frequencies', rtol=1e-12, atol=1e-14)
    labels(c, t)


@clause(case, quick=600, rule='damped, non-zero load')
def truncated(c, t):
    """Fewer modes: the modal sum over the lowest modes (all modes at most)."""
    A = dyn(c, t)
    M, C, K = systems.mats(c['s'])
    n = min(c['neigs'], c['s']['N'])
    lam, V = sl.eigh(K, M)
    if n < len(lam) and lam[n] - lam[n - 1] < 1e-6 * lam[-1]:
        t.skip('mode order not defined')
    V = V[:, :n]
    X = frf(systems.warm(systems.build(c['s']), c['s'], c), c, c['neigs'], c['F'], c['G'])
    for i, a in enumerate(A):
        x = V @ np.linalg.solve(V.T @ a @ V, V.T @ load(c['F'], c['G']))
        t.close(X[i, :-1], np.hstack((x.real, -x.imag)), 'modal sum', rtol=1e-11 * np.linalg.cond(a) + 1e-11,
                atol=1e-13)
    t.label('modes%d of %d' % (n, len(lam)))
    labels(c, t)
