"""C21 Continuation returns only converged points on the solution branch."""
import copy
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cont, systems
from pbt.core import clause, arr


def check_rows(c, t, pr, rows, sol, lam0, x0):
    """Statements that need no model of the run."""
    t.ok(rows.ndim == 2 and rows.shape[1] == pr.n + 1 and len(rows) >= 1, 'shape of the result', shape=rows.shape)
    t.ok(np.all(np.isfinite(rows)), 'result not finite')
    t.ok(rows[0, -1] == lam0, 'first point not at the starting value', got=rows[0, -1], want=lam0)
    good = [e for e in sol.log if e['success']]
    bad = sum(not e['success'] for e in sol.log)
    t.ok(len(rows) <= len(good), 'more points than converged solutions')
    # The solver's step-size criterion may report convergence at a point that is no root (scipy hybr); such points are
    # the solver's answer, so only as many rows as the solver itself declared converged with a large residual may be off.
    loose = 1e-4 if c['cfg'].get('xtol') is None else 1e-6
    false = sum(np.max(np.abs(e['R'])) > 0.02 * loose for e in good)
    for k, P in enumerate(rows):
        R, J = pr.raw(P)
        sc = 1 + np.max(np.abs(J) @ np.abs(P))
        if np.max(np.abs(R)) > loose * sc:
            false -= 1
            t.label('solver reports a non-root as converged')
            t.ok(false >= 0, 'point %d of %d does not solve the equations' % (k, len(rows)),
                 residual=np.max(np.abs(R)), scale=sc)
    return bad


@clause(lambda: cont.run_case(), quick=1600, shards=6, rule='at least three points and a failing or adapted step')
def converged_points(c, t):
    """Any configuration, any injected failures: returned points solve the equations and are the converged solutions, step
    sizes follow the configuration, and every accepted step has the scaled arc length asked for."""
    z = cont.setup(c)
    if z is None:
        t.skip('start at a fold')
    pr, x0, lam0, lam1, P0, _ = z
    ct, sol, _, cfg = cont.make(c)
    x = x0.copy()
    rows, exc, _ = cont.execute(ct, pr, x, lam0, lam1)
    t.same(x, x0, 'XlamP0 modified')
    if exc is not None:
        t.ok(not sol.log[0]['success'] and len(sol.log) == 1, 'assertion although the first solution converged', exc=exc)
        t.label('initial failure')
        return
    bad = check_rows(c, t, pr, rows, sol, lam0, x0)
    try:
        m = cont.walk(c, cfg, pr, sol.log, x0, lam0, lam1, t)
    except cont.Fuzzy as e:
        t.label('partly: ' + str(e)[:25])
        return
    t.close(rows, np.array(m['rows']), 'returned rows are the accepted solutions in order', rtol=1e-13)
    F = m['F']
    for a in m['att']:
        t.ok(min(F['dsmin'], F['ds0']) * (1 - 1e-12) <= a['ds'] <= max(F['dsmax'], F['ds0']) * (1 + 1e-12),
             'step size outside of the bounds', ds=a['ds'])
        if not a['ok']:
            continue
        d = (a['new'] - a['P']) / a['C']
        tol = 1e-5 + 1e-6 * np.abs(a['P'] / a['C']).max() / a['ds']
        if c['cfg'].get('xtol') is None:
            tol *= 1e3
        if F['corrector'].upper() == 'PSEUDO':
            L = cont.dist(a['new'], a['P'], a['C'], a['b'])
            t.ok(abs(L - a['ds']) <= tol * a['ds'], 'scaled arc length of an accepted step (pseudo)', got=L, want=a['ds'])
        else:
            L = a['cc'] * d[:-1] @ a['d'][:-1] + a['b'] * d[-1] * a['d'][-1]
            t.ok(abs(L - a['ds']) <= tol * a['ds'], 'projected arc length of an accepted step (ortho)', got=L,
                 want=a['ds'])
    t.label(m['reason'], F['corrector'].lower(), 'dynamic%d' % F['DynamicCtoP'], 'failures%d' % (bad > 0))
    if len(m['rows']) >= 3:
        t.label('>=3 points')
    t.nontrivial(len(m['rows']) >= 3 and (bad > 0 or len(set(a['ds'] for a in m['att'])) > 1))


@st.composite
def twin_case(draw):
    c = draw(cont.run_case())
    c['sc'] = [2.0 ** draw(st.integers(-4, 4)) for _ in range(c['p']['n'] + 1)]
    c['verb'] = draw(st.sampled_from([-1, 0, 1, 2, 100]))
    c['nverb'] = draw(st.booleans())
    c['usecb'] = draw(st.booleans())
    return c


@clause(twin_case, quick=600, shards=4, rule='at least three points')
def scaling_and_output_invariance(c, t):
    """The same problem in rescaled unknowns (with the matching conditioning vector), and with any verbosity and callback,
    gives the same points."""
    z = cont.setup(c)
    if z is None:
        t.skip('start at a fold')
    pr, x0, lam0, lam1, P0, _ = z
    Cv = np.ones(pr.n + 1) if c['CtoP'] is None else arr(c['Cv'])
    ct, sol, _, _ = cont.make(c, CtoP=Cv)
    rows, exc, _ = cont.execute(ct, pr, x0.copy(), lam0, lam1)
    cfg = dict(c['cfg'], verbose=c['verb'], nsolve_verbose=c['nverb'])
    seen = []
    ct, sol2, _, _ = cont.make(c, CtoP=Cv, cfg=cfg, cb=(lambda X, d: seen.append(1)) if c['usecb'] else None)
    rows2, exc2, _ = cont.execute(ct, pr, x0.copy(), lam0, lam1)
    t.ok((exc is None) == (exc2 is None), 'outcome depends on verbosity/callback')
    if exc is None:
        if not np.array_equal(rows, rows2):
            for _ in range(2):                              # the same run must be reproducible bit by bit to compare
                ct, sol, _, _ = cont.make(c, CtoP=Cv)
                if not np.array_equal(cont.execute(ct, pr, x0.copy(), lam0, lam1)[0], rows):
                    t.skip('floating point not reproducible')
        t.same(rows2, rows, 'points depend on verbosity/callback (verbose=%s)' % c['verb'])
    s = arr(c['sc'])
    prs, x0s, lam0s, lam1s, _, _ = cont.setup(c, scale=s)
    x0s = x0 / s
    ct, sol3, _, _ = cont.make(c, CtoP=Cv / s)
    # the direction reference of the first step is one unit of lam in physical units: same line, any scale
    rows3, exc3, _ = cont.execute(ct, prs, x0s.copy(), lam0s, lam1s)
    if not c['cfg'].get('backtrackStop'):                # given in physical units
        t.ok((exc is None) == (exc3 is None), 'outcome depends on the scaling of the variables')
        if exc is None:
            t.ok(rows3.shape == rows.shape, 'number of points depends on the scaling', got=rows3.shape, want=rows.shape)
            t.close(rows3 * s, rows, 'points depend on the scaling of the variables', rtol=1e-5)
            t.label('scaled')
    t.nontrivial(exc is None and len(rows) >= 3)


@st.composite
def hbm_case(draw):
    s = draw(systems.system(('cubic', 'quintic', 'unispring', 'cubdamp'), N=draw(st.integers(1, 2)), nf=(1, 2), damp='ab'))
    return dict(s=s, h=draw(st.sampled_from([[1], [0, 1], [1, 3], [0, 1, 2, 3]])), F=draw(gen.vec(s['N'], 0.6)),
                ds=draw(gen.logn(0.02, 0.2, 20)), w0=draw(gen.num(0.2, 1.5)), dyn=draw(st.booleans()),
                back=draw(st.booleans()), corr=draw(st.sampled_from(['Ortho', 'Pseudo'])),
                vec=draw(st.booleans()), verbose=draw(st.sampled_from([-1, 0, 100])),
                fail=draw(st.lists(st.integers(1, 15), max_size=4)))


@clause(hbm_case, quick=300, shards=4, rule='at least five points')
def harmonic_balance_branch(c, t):
    """Frequency response branches of nonlinear systems: every returned point satisfies the reference harmonic balance
    equations at its own frequency."""
    from tmdsimpy.continuation import Continuation
    s, h = c["s"], np.array(c["h"])
    vs = systems.build(s)
    N, Nt = s['N'], 32
    n = N * ref.nhc(h)
    Fl = np.zeros(n)
    k = N if 0 in h else 0
    Fl[k:k + N] = arr(c['F'])
    if np.abs(Fl).max() < 1e-2:
        t.skip('no load')
    M, C, K = systems.mats(s)
    w0, w1 = (1.5 + c['w0'], c['w0']) if c['back'] else (c['w0'], 1.5 + c['w0'])
    z = np.linalg.solve(K - w0 ** 2 * M + 1j * w0 * C + 1e-6 * np.eye(N), arr(c['F']))
    x0 = np.zeros(n + 1)
    x0[k:k + N], x0[k + N:k + 2 * N] = z.real, -z.imag
    sol = cont.rec_solver(False, [[f, 1, 'near'] for f in c['fail']], [])
    kw = {}
    if c['vec']:
        kw['CtoP'] = np.r_[np.full(n, max(1e-2, np.abs(z).max())), 1.0]
    ct = Continuation(sol, ds0=c['ds'], config=dict(MaxSteps=25, DynamicCtoP=c['dyn'], corrector=c['corr'], xtol=1e-9,
                                                    verbose=c['verbose'], TargetNfev=8), **kw)
    rows, exc, _ = cont.execute(ct, lambda X, calc_grad=True: vs.hbm_res(X, Fl, h, Nt), x0, w0, w1)
    if exc is not None:
        t.ok(not sol.log[0]['success'], 'assertion although the first solution converged')
        t.label('initial failure')
        return
    t.ok(rows[0, -1] == w0, 'first point not at the starting frequency')
    sg = np.sign(w1 - w0)
    for P in rows:
        R, sc = systems.residual(s, P[:-1], P[-1], h, Nt, Fl)
        # extrapolated amplitudes may be large
        t.ok(np.max(np.abs(R)) <= 1e-6 * (1 + sc), 'point does not solve the harmonic balance equations', w=P[-1],
             residual=np.max(np.abs(R)), scale=sc)
    t.ok(len(rows) == 25 or sg * rows[-1, -1] >= sg * w1 or not sol.log[-1]['success'], 'ended without reason',
         rows=len(rows), w=rows[-1, -1])
    t.label('failed' if not sol.log[-1]['success'] else 'complete')
    t.nontrivial(len(rows) >= 5)
