"""C19 Base solver solves, factors, conditions and decomposes correctly."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import clause, arr
from pbt.fd import jitter, check_jac


def solver(omp):
    if omp:
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        return NonlinearSolverOMP(config={'verbose': False})
    from tmdsimpy.solvers import NonlinearSolver
    return NonlinearSolver()


@st.composite
def lin_case(draw):
    n = draw(st.integers(1, 6))
    k = draw(st.integers(1, 3))
    return dict(omp=draw(st.booleans()), A=[draw(gen.mat(n, n, 2.0)) for _ in range(k)],
                diag=draw(gen.num(-2, 2)),
                ops=draw(st.lists(st.tuples(st.sampled_from(['solve', 'factor', 'use', 'use']), st.integers(0, k - 1),
                                            gen.vec(n, 3.0)), min_size=2, max_size=7)),
                cols=draw(st.sampled_from([0, 0, 1, 1, 2, 4])))


@clause(lin_case, quick=1500, shards=2, rule='a factorisation reused after other factorisations')
def linear_solves(c, t):
    """Interleaved solves / factorisations / factored solves each satisfy A x = b."""
    s = solver(c['omp'])
    As = [arr(a) + c['diag'] * np.eye(len(a)) for a in c['A']]
    conds = [np.linalg.cond(a) for a in As]
    fac, last, reused = {}, None, 0
    for i, (op, k, b) in enumerate(c['ops']):
        A, b = As[k], arr(b)
        if i == 3:                                      # new contents in the same array: factors need not know of it
            A *= -2.0
            fac.pop(k, None)
        if c['cols']:       # several right hand sides (or one, as a column)
            b = np.stack([b * (1 + j) + j for j in range(c['cols'])], axis=1)
        if conds[k] > 1e6:
            continue
        A0, b0 = A.copy(), b.copy()
        if op == 'factor' or (op == 'use' and k not in fac):
            fac[k] = s.lin_factor(A)
            t.same(A, A0, 'A modified')
            last = k
            if op == 'factor':
                continue
        x = s.lin_solve(A, b) if op == 'solve' else s.lin_factored_solve(fac[k], b)
        t.same(A, A0, 'A modified')
        t.same(b, b0, 'b modified')
        x = np.array(x)
        if i % 3 == 1:
            t.kept(lambda v: s.lin_solve(A, v) if op == 'solve' else s.lin_factored_solve(fac[k], v), b, 2 * b + 1, op, rtol=1e-12 * conds[k])
        t.close(x, np.linalg.solve(A0, b0), op, rtol=1e-13 * conds[k] + 1e-13, atol=1e-15)
        t.close(A0 @ x, b0, 'A x = b', rtol=1e-12 * conds[k], atol=1e-13)
        if op == 'use' and last != k:
            reused += 1
    t.label('omp' if c['omp'] else 'base', 'n%d' % len(As[0]), 'cols%d' % c['cols'])
    t.nontrivial(reused > 0)


@st.composite
def eig_case(draw):
    n = draw(st.integers(1, 6))
    def rng():
        lo = draw(st.integers(0, n - 1))
        return [lo, draw(st.integers(lo, n + 2))]
    return dict(omp=draw(st.booleans()), n=n, K=draw(gen.mat(n, n, 2.0)), M=draw(st.one_of(st.none(), gen.spd(n))),
                big=draw(gen.spd(n + 3)), ranges=[rng() if draw(st.integers(0, 3)) else None
                                                  for _ in range(draw(st.integers(1, 4)))])


@clause(eig_case, quick=2500, shards=2, rule='a range after another range, or fewer modes than DOFs')
def eigenpairs(c, t):
    """Requested ascending eigenpairs, mass-normalised; never more than exist; earlier calls and arguments irrelevant."""
    s = solver(c['omp'])
    K = arr(c['K'])
    K = K + K.T
    M = None if c['M'] is None else arr(c['M'])
    n = c['n']
    Mr = np.eye(n) if M is None else M
    lam = sl.eigh(K, Mr, eigvals_only=True)
    kn = np.abs(lam).max() + 1
    sens = 1e-11 * np.linalg.cond(Mr) * kn + 1e-12
    for i, r in enumerate(c['ranges']):
        K0, M0 = K.copy(), Mr.copy()
        r0 = None if r is None else list(r)
        a = () if M is None else (M,)
        if r is None:
            w, V = s.eigs(K, *a)
            lo, hi = 0, min(2, n - 1)
        else:
            w, V = s.eigs(K, *a, subset_by_index=r)
            t.ok(r == r0, 'subset_by_index modified', was=r0, now=r)
            lo, hi = r[0], min(r[1], n - 1)
        t.same(K, K0, 'K modified')
        if M is not None:
            t.same(M, M0, 'M modified')
        m = hi - lo + 1
        w, V = np.array(w), np.array(V)
        t.ok(w.shape == (m,) and V.shape == (n, m), 'number of eigenpairs in call %d: %s %s, expected %d'
             % (i, w.shape, V.shape, m))
        t.close(w, lam[lo:hi + 1], 'eigenvalues', rtol=0, atol=sens)
        t.close(K @ V, Mr @ V * w, 'K V = M V w', rtol=0, atol=sens * (1 + np.abs(V).max()) * np.abs(Mr).max() * 10)
        t.close(V.T @ Mr @ V, np.eye(m), "V' M V = I", rtol=0, atol=1e-10 * np.linalg.cond(Mr))
        k = (None if r is None else list(r))
        t.kept(lambda Q: s.eigs(Q, *(a or (None,)), **({} if k is None else dict(subset_by_index=list(k))))[:1], K, 2 * K + np.eye(n),
               'eigenvalues', rtol=sens)
        if i == 0 and n > 1:                            # the same arrays with new contents, or only one of them new
            M2 = 3.0 * Mr
            K2 = K.copy()
            w2 = np.array(s.eigs(K, M2, *(() if r is None else (list(r),)))[0])
            t.close(w2, lam[lo:hi + 1] / 3.0, 'eigenvalues with another mass matrix', rtol=0, atol=sens)
            K *= 0.5
            w2 = np.array(s.eigs(K, *a, *(() if r is None else ((list(r),) if a else (None, list(r)))))[0])
            t.close(w2, lam[lo:hi + 1] * 0.5, 'eigenvalues of changed matrix', rtol=0, atol=sens)
            K[...] = K2
        if i == 0 and c['omp'] is False:
            s.eigs(arr(c['big']))                   # another, larger problem in between
            s.eigs(arr([[2.0]]))                    # and a smaller one
    t.label('M' if M is not None else 'noM', 'calls%d' % len(c['ranges']), 'n%d' % n)
    t.nontrivial(len(c['ranges']) > 1 or n > 3)


@st.composite
def prob(draw, nmax=4):
    n = draw(st.integers(1, nmax))
    return dict(n=n, A=draw(gen.spd(n, 0.5)), S=draw(gen.mat(n, n, 0.3)), d=[abs(x) for x in draw(gen.vec(n, 2.0))],
                b=draw(gen.vec(n, 3.0)), x0=draw(gen.vec(n, 2.0)))


def fun_of(p):
    """Strongly monotone: R = (A + skew) x + d x^3 - b, one root."""
    S = arr(p['S'])
    A = arr(p['A']) + (S - S.T)
    d, b = arr(p['d']), arr(p['b'])

    def f(x, calc_grad=True):
        x = np.array(x, dtype=float)
        R = A @ x + d * x ** 3 - b
        return (R, A + np.diag(3 * d * x ** 2), 'extra') if calc_grad else (R, 'extra')
    return f


def root_of(f, n):
    x = np.zeros(n)
    for _ in range(200):
        R, J = f(x)[:2]
        dx = np.linalg.solve(J, R)
        a = 1.0
        while np.linalg.norm(f(x - a * dx)[0]) > np.linalg.norm(R) and a > 1e-4:
            a *= 0.5
        x = x - a * dx
        if np.abs(dx).max() < 1e-14 * (1 + np.abs(x).max()):
            break
    return x


@st.composite
def nsolve_case(draw):
    c = draw(prob())
    c['xtol'] = draw(st.sampled_from([None, 1e-4, 1e-8, 1e-10]))
    c['verbose'] = draw(st.booleans())
    return c


@clause(nsolve_case, quick=1200, rule='starting away from the root')
def nonlinear_solve(c, t):
    """Base nsolve: returned residual and Jacobian belong to the returned point; success means the root."""
    import contextlib, io
    f = fun_of(c)
    x0 = arr(c['x0'])
    X0 = x0.copy()
    s = solver(False)
    g = (lambda x: f(x)[:2])
    with contextlib.redirect_stdout(io.StringIO()) as out:
        X, R, J, sol = s.nsolve(g, x0, verbose=c['verbose'], **({} if c['xtol'] is None else dict(xtol=c['xtol'])))
    t.ok(c['verbose'] or out.getvalue() == '', 'prints although verbose=False')
    t.same(x0, X0, 'X0 modified')
    want = f(X)
    t.close(R, want[0], 'residual at the returned point', rtol=1e-12, atol=1e-13)
    t.close(J, want[1], 'Jacobian at the returned point', rtol=1e-12, atol=1e-13)
    if sol['success']:
        r = root_of(f, c['n'])
        tol = 1e-6 * c['n'] if c['xtol'] is None else c['xtol']
        t.close(X, r, 'root', rtol=0, atol=1e2 * tol * (1 + np.abs(r).max()) + 1e-10)
    t.label('success' if sol['success'] else 'failed')
    t.nontrivial(sol['success'] and np.abs(f(X0)[0]).max() > 1e-3)


@st.composite
def cond_case(draw):
    c = draw(prob())
    n = c['n']
    def scale():
        k = draw(st.sampled_from(['s', 'v', 'v']))
        return draw(gen.logn(1e-3, 1e3)) if k == 's' else [10 ** (1.5 * x) for x in draw(gen.vec(n, 1.0))]
    c['CtoP'], c['RPtoC'], c['defR'] = scale(), scale(), draw(st.integers(0, 4)) == 0
    c['x'], c['seed'], c['omp'] = draw(gen.vec(n, 2.0)), draw(st.integers(0, 9999)), draw(st.booleans())
    return c


@clause(cond_case, quick=2000, shards=2, rule='vector scaling of unknowns or residual')
def conditioning(c, t):
    """Wrapped function = RPtoC * R(CtoP * Xc), with the chain rule Jacobian; roots are the original roots scaled."""
    f, n = fun_of(c), c['n']
    s = solver(c['omp'])
    D = arr(c['CtoP']) if isinstance(c['CtoP'], list) else c['CtoP']
    W = 1.0 if c['defR'] else arr(c['RPtoC']) if isinstance(c['RPtoC'], list) else c['RPtoC']
    g = s.conditioning_wrapper(f, D) if c['defR'] else s.conditioning_wrapper(f, D, RPtoC=W)
    Dv, Wv = D * np.ones(n), W * np.ones(n)
    xc = jitter(c['x'], c['seed']) / Dv
    x0 = xc.copy()
    out = g(xc)
    t.same(xc, x0, 'Xc modified')
    R, J = f(Dv * xc)[:2]
    t.ok(len(out) == 2, 'wrapped function returns residual and Jacobian')
    t.close(out[0], Wv * R, 'scaled residual', rtol=1e-12, elem=True, atol=1e-15)
    t.close(out[1], Wv[:, None] * J * Dv[None, :], 'scaled Jacobian', rtol=1e-12, elem=True, atol=1e-15)
    o = g(xc, calc_grad=False)
    t.ok(len(o) == 1, 'calc_grad=False returns one value')
    t.close(o[0], Wv * R, 'scaled residual without gradient', rtol=1e-12, elem=True, atol=1e-15)
    # roots
    r = root_of(f, n)
    t.close(g(r / Dv)[0] / Wv, 0 * r, 'root of the original problem', rtol=0, atol=1e-10)
    sol = solver(False).nsolve(g, r / Dv * (1 + 1e-3), verbose=False, xtol=1e-9)
    if sol[3]['success']:
        t.close(sol[0] * Dv, r, 'root through the wrapper', rtol=0, atol=1e-5 * (1 + np.abs(r).max()))
        t.label('solved')
    t.label('CtoP-' + type(c['CtoP']).__name__, 'RPtoC-' + ('default' if c['defR'] else type(c['RPtoC']).__name__))
    t.nontrivial(n > 1 and (isinstance(c['CtoP'], list) or isinstance(c['RPtoC'], list)))
