"""C22 Continuation keeps its direction, protocol and configuration limits."""
import copy
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cont
from pbt.core import clause, arr
from pbt.fd import check_jac


def run(c, cfg=None, cb=None, **k):
    z = cont.setup(c)
    if z is None:
        return None
    pr, x0, lam0, lam1, P0, sg = z
    ct, sol, kw, cf = cont.make(c, cb=cb, cfg=cfg, **k)
    rows, exc, out = cont.execute(ct, pr, x0.copy(), lam0, lam1)
    return dict(pr=pr, x0=x0, lam0=lam0, lam1=lam1, sg=sg, ct=ct, sol=sol, rows=rows, exc=exc, out=out, cfg=cf)


@clause(lambda: cont.run_case(), quick=1600, shards=6, rule='at least three points')
def protocol(c, t):
    """Callback history, direction, and the reason for stopping against the documented protocol, for any configuration and
    injected failures."""
    cb = []
    refs = []

    def callback(X, d):
        cb.append((np.array(X), np.array(d)))
        refs.append((X, d))
    r = run(c, cb=callback)
    if r is None:
        t.skip('start at a fold')
    for (X, d), (X0, dd0) in zip(refs, cb):
        t.same(X, X0, 'the point handed to a callback changed afterwards')
        t.same(d, dd0, 'the direction handed to a callback changed afterwards')
    rows, pr = r['rows'], r['pr']
    n1 = pr.n + 1
    if r['exc'] is not None:
        t.ok(len(cb) == 0, 'callback although the first solution failed')
        t.label('initial failure')
        return
    if c['cfg']['verbose'] < 0 and not c['cfg'].get('nsolve_verbose'):
        t.ok(r['out'].getvalue() == '', 'output although suppressed', out=r['out'].getvalue()[:80])
    t.ok(len(cb) == len(rows) + 1, 'number of callbacks', got=len(cb), want=len(rows) + 1)
    t.ok(all(X.shape == (n1,) and d.shape == (n1,) for X, d in cb), 'shape of the callback arguments')
    for k, P in enumerate(rows):
        t.same(cb[k][0], P, 'callback %d gets the point' % k)
    t.ok(np.all(np.isnan(cb[0][1])), 'direction of the first callback is not NaN')
    t.ok(np.all(np.isnan(cb[-1][0])), 'point of the last callback is not NaN')
    F = cont.full_config(c['cfg'], c['ds0_arg'])
    t.ok(len(rows) <= F['MaxSteps'], 'more points than MaxSteps')
    # tangents of the branch: each direction belongs to the point before it
    for k in range(1, len(cb)):
        P, d = rows[k - 1], cb[k][1]
        if not np.all(np.isfinite(d)):
            continue                                        # judged below
        J = pr.raw(P)[1]
        C = 1 if c['CtoP'] is None else np.abs(arr(c['Cv']))
        sv = np.linalg.svd(J, compute_uv=False)
        if sv[-1] < 1e-4 * sv[0] or (k > 1 and abs((cb[k - 1][1] / C ** 2) @ d) < 1e-4 * np.linalg.norm(cb[k - 1][1] / C)
                                     * np.linalg.norm(d / C)):
            continue
        t.ok(np.max(np.abs(J @ d)) <= 1e-6 * np.max(np.abs(J) @ np.abs(d)) * sv[0] / sv[-1], 'direction %d is not a '
             'tangent at the point before' % k, res=J @ d, d=d)
    try:
        m = cont.walk(c, r['cfg'], pr, r['sol'].log, r['x0'], r['lam0'], r['lam1'], t)
        if m['reason'] == 'failed':
            want = m['last']
        else:
            want = cont.final_dir(pr, m)
    except cont.Fuzzy as e:
        t.label('partly: ' + str(e)[:25])
        return
    t.ok(all(np.all(np.isfinite(d)) for _, d in cb[1:]), 'directions not finite')
    for k, (P, d) in enumerate(m['cbs']):
        t.close(rows[k], P, 'accepted point %d' % k, rtol=1e-13)
        if k:
            t.close(cb[k][1], d, 'direction %d of the callback' % k, rtol=1e-5)
    t.close(cb[-1][1], want, 'direction of the last callback (%s)' % m['reason'], rtol=1e-5)
    t.label(m['reason'], c['p']['kind'], 'back%d' % c['back'])
    t.nontrivial(len(rows) >= 3)


@st.composite
def fold_case(draw):
    c = draw(cont.run_case(kinds=('fold', 'loop'), faults=draw(st.integers(0, 3)) == 0, small=True,
                           maxsteps=(60, 120)))
    c['p']['a'] = draw(gen.num(0.8, 2.5, 40))
    c['span'] = draw(st.sampled_from([1.0, 4.0, 8.0, 8.0]))
    c['cfg']['FracLam'] = draw(st.sampled_from([0.5, 0.1, 0.8]))
    c['cfg'].pop('FracLamList', None)
    c['cfg']['MaxIncrease'] = 1.2
    c['nfev'] = []
    return c


@clause(fold_case, quick=500, shards=5, rule='a turning point was passed')
def direction_through_folds(c, t):
    """Along resolved branches the branch parameter moves one way only, through every turning point, and ends past lam1, at
    MaxSteps, at the backtracking limit or at a failure."""
    cb = []
    r = run(c, cb=lambda X, d: cb.append((np.array(X), np.array(d))))
    if r is None:
        t.skip('start at a fold')
    if r['exc'] is not None:
        t.skip('initial failure')
    rows, pr, sg = r['rows'], r['pr'], r['sg']
    direct = -1.0 if c['back'] else 1.0
    s = np.array([pr.param(P) for P in rows])
    if c['p']['kind'] == 'loop':
        s = np.unwrap(s)
    # the starting point is on the drawn part of the branch?
    if abs(np.angle(np.exp(1j * (s[0] - c['p']['s0']))) if c['p']['kind'] == 'loop' else s[0] - c['p']['s0']) > 0.05:
        t.skip('first solution on another part of the branch')
    d0 = pr.branch(s[0])[1]
    end = len(rows) - 1
    C0 = np.ones(pr.n + 1) if c['CtoP'] is None else np.abs(arr(c['Cv']))
    for k in range(1, len(rows)):
        if min(np.linalg.norm(rows[k][:-1]), np.linalg.norm(rows[k - 1][:-1])) < 0.5:
            end = k - 1                                     # relative arc length undefined at the zero vector
            t.label('near zero vector')
            break
        T0, T1 = pr.branch(s[k - 1])[1], pr.branch(s[k])[1]
        C = np.maximum(np.abs(rows[k - 1]), C0) if c['cfg'].get('DynamicCtoP') else C0
        b = c['cfg'].get('FracLam', 0.5)
        cc = (1 - b) / np.linalg.norm(rows[k - 1][:-1] / C[:-1]) ** 2
        W = np.r_[np.full(pr.n, cc), b] / C ** 2
        ch = rows[k] - rows[k - 1]
        cosf = lambda a, q: (W * a) @ q / np.sqrt((W * a) @ a * ((W * q) @ q))
        if min(abs(cosf(T0, ch)), abs(cosf(T1, ch)), cosf(T0, T1)) < 0.8 or abs(s[k] - s[k - 1]) > 1.0:
            end = k - 1                                     # step too large to tell
            t.label('unresolved step')
            break
        t.ok(sg * (s[k] - s[k - 1]) > 0, 'turned back at point %d (branch parameter %g -> %g)' % (k, s[k - 1], s[k]))
    if end == len(rows) - 1:
        lam = rows[:, -1]
        F = cont.full_config(c['cfg'], c['ds0_arg'])
        past = direct * lam[-1] >= direct * r['lam1']
        back = direct * lam[-1] <= direct * r['lam0'] - F['backtrackStop']
        full = len(rows) == F['MaxSteps']
        failed = not r['sol'].log[-1]['success']
        t.ok(past or back or full or failed, 'ended without a reason', lam=lam[-1], lam1=r['lam1'], n=len(rows))
        t.ok(np.all(direct * lam[:-1] < direct * r['lam1']), 'went on after passing the target')
        t.ok(np.all(direct * lam[:-1] > direct * r['lam0'] - F['backtrackStop']), 'went on after the backtracking limit')
        t.label('past' if past else 'back' if back else 'max' if full else 'failed')
    dl = np.sign([pr.branch(x)[1][-1] for x in s[:end + 1]])
    if np.any(dl[1:] != dl[:-1]):
        t.nontrivial()
        t.label('turning point')


@st.composite
def repeat_case(draw):
    c = draw(cont.run_case(maxsteps=(2, 4, 8, 15)))
    c['CtoP'] = draw(st.sampled_from([None, 'v']))
    c['RPtoC'] = draw(st.sampled_from([None, None, 's', 'v']))
    c['other'] = draw(st.booleans())
    c['cb'] = draw(st.booleans())
    return c


@clause(repeat_case, quick=500, shards=4, rule='at least three points')
def repeatable(c, t):
    """A run leaves the caller's arrays, configuration and solver settings unchanged, and running the same object again
    (even after a run elsewhere) gives the same points; a new object does too."""
    from tmdsimpy.continuation import Continuation
    z = cont.setup(c)
    if z is None:
        t.skip('start at a fold')
    pr, x0, lam0, lam1, P0, _ = z
    cfg = copy.deepcopy(c['cfg'])
    if c['cb']:
        cfg['callback'] = lambda X, d: None
    Cv = None if c['CtoP'] is None else arr(c['Cv'])
    Rv = None if c['RPtoC'] is None else 2.5 if c['RPtoC'] == 's' else arr(c['Rv'])
    lst = cfg.get('FracLamList')
    cfg0 = {k: copy.deepcopy(v) for k, v in cfg.items() if k != 'callback'}
    sol = cont.rec_solver(c['omp'], c['faults'], c['nfev'])
    scfg = copy.deepcopy(getattr(sol, 'config', None))
    ct = Continuation(sol, ds0=c['ds0_arg'], config=cfg, CtoP=Cv, RPtoC=Rv)
    x = x0.copy()
    out = []
    for rep in range(2):
        sol.log = []
        rows, exc, _ = cont.execute(ct, pr, x, lam0, lam1)
        out.append((rows, exc))
        t.same(x, x0, 'XlamP0 modified')
        if Cv is not None:
            t.same(Cv, arr(c['Cv']), 'CtoP modified')
        if c['RPtoC'] == 'v':
            t.same(Rv, arr(c['Rv']), 'RPtoC modified')
        t.ok({k: v for k, v in cfg.items() if k != 'callback'} == cfg0 and cfg.get('FracLamList') is lst,
             'configuration of the caller modified', before=cfg0, after=cfg)
        t.ok(getattr(sol, 'config', None) == scfg, 'solver settings modified', before=scfg,
             after=getattr(sol, 'config', None))
        if rep == 0 and c['other']:
            sol.log = []
            fl, sol.faults = sol.faults, []
            cont.execute(ct, pr, x, lam1, lam0)
            sol.faults = fl
    sol2 = cont.rec_solver(c['omp'], c['faults'], c['nfev'])
    rows, exc, _ = cont.execute(Continuation(sol2, ds0=c['ds0_arg'], config=cfg, CtoP=Cv, RPtoC=Rv), pr, x, lam0, lam1)
    out.append((rows, exc))
    for k, (a, e) in enumerate(out[1:]):
        t.ok((e is None) == (out[0][1] is None), 'outcome of run %d' % (k + 2))
        if e is None:
            if not np.array_equal(a, out[0][0]):
                base = []
                for _ in range(3):                          # fresh objects must agree bit by bit to compare
                    s3 = cont.rec_solver(c['omp'], c['faults'], c['nfev'])
                    base.append(cont.execute(Continuation(s3, ds0=c['ds0_arg'], config=cfg, CtoP=Cv, RPtoC=Rv), pr, x, lam0,
                                             lam1)[0])
                if not all(np.array_equal(y, out[0][0]) for y in base):
                    t.skip('floating point not reproducible')
            t.same(a, out[0][0], 'run %d gives the same points' % (k + 2))
    t.nontrivial(exc is None and len(rows) >= 3)


@st.composite
def parts_case(draw):
    p = draw(cont.problem())
    n = p['n'] + 1
    m = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 8.0]))
    return dict(p=p, X=[x * m for x in draw(gen.vec(n, 2.0))], X0=[x * m for x in draw(gen.vec(n, 2.0))], d=draw(gen.vec(n, 1.5)), prev=draw(gen.vec(n, 1.0)),
                ds=draw(gen.logn(0.01, 1.0)), b=draw(st.sampled_from([0.5, 0.1, 0.9, 0.0, 1.0, 0.33])),
                Cv=draw(gen.vec(n, 1.0)), R=draw(st.sampled_from([None, 0.4, 3.0])), dyn=draw(st.booleans()),
                corr=draw(st.sampled_from(['Ortho', 'Pseudo', 'pseudo', 'ORTHO'])), omp=draw(st.booleans()),
                c=draw(gen.num(0, 2)), seed=draw(st.integers(0, 9999)))


@clause(parts_case, quick=2000, shards=2, rule='nonzero points')
def predictor_and_corrector(c, t):
    """predict: signed unit tangent in the conditioned metric; constraint residuals by their documented formulas; Jacobians
    against finite differences; correct_res stacks both and ignores the gradient flag."""
    from tmdsimpy.continuation import Continuation
    pr = cont.Prob(c['p'])
    n = pr.n + 1
    C = 0.3 + np.abs(arr(c['Cv']))
    X0, X, d, prev = arr(c['X0']), arr(c['X']), arr(c['d']), arr(c['prev'])
    b, ds = c['b'], c['ds']
    if np.linalg.norm(X0[:-1]) < 1e-2 or np.linalg.norm(prev) < 1e-2:
        t.skip('zero point')
    ct = Continuation(cont.rec_solver(c['omp'], [], []), ds0=0.1, CtoP=C,
                      RPtoC=None if c['R'] is None else c['R'],
                      config=dict(FracLam=b, corrector=c['corr'], DynamicCtoP=False))
    rp = 1.0 if c['R'] is None else c['R']
    cc = (1 - b) / np.linalg.norm(X0[:-1]) ** 2
    # documented scalar constraints
    v = X - X0
    R, J = ct.pseudo_arc_res(X.copy(), X0.copy(), ds, b, c['c'])
    L2 = c['c'] * v[:-1] @ v[:-1] + b * v[-1] ** 2
    t.close(R, (L2 - ds ** 2) / ds ** 2, 'pseudo arc length residual', rtol=1e-11, atol=1e-11 * (L2 / ds ** 2 + 1), shape=False)
    check_jac(t, lambda x: np.atleast_1d(ct.pseudo_arc_res(x, X0, ds, b, c['c'])[0]), X, np.atleast_2d(J),
              c['seed'], 'pseudo arc length gradient', rtol=1e-6)
    R, J = ct.orthogonal_arc_res(X.copy(), X0.copy(), d, ds, b, c['c'])
    w = v - d * ds
    sc = (c['c'] * np.abs(w[:-1]) @ np.abs(d[:-1]) + abs(b * w[-1] * d[-1])) / ds
    t.close(R, (c['c'] * w[:-1] @ d[:-1] + b * w[-1] * d[-1]) / ds, 'orthogonal residual', rtol=1e-11,
            atol=1e-12 * (1 + sc), shape=False)
    check_jac(t, lambda x: np.atleast_1d(ct.orthogonal_arc_res(x, X0, d, ds, b, c['c'])[0]), X, np.atleast_2d(J),
              c['seed'], 'orthogonal gradient', rtol=1e-6)
    # augmented system
    Xs = X.copy()
    Ra, Ja = ct.correct_res(pr, Xs, X0.copy(), ds, d.copy())
    t.same(Xs, X, 'XlamC modified')
    Rn = ct.correct_res(pr, X.copy(), X0.copy(), ds, d.copy(), calc_grad=False)
    t.ok(isinstance(Rn, tuple), 'tuple without gradient')
    t.equal(Rn[0], Ra, 'residual does not depend on calc_grad')
    if c['corr'].upper() == 'PSEUDO':
        L2 = cc * v[:-1] @ v[:-1] + b * v[-1] ** 2
        last = (L2 - ds ** 2) / ds ** 2
    else:
        last = (cc * w[:-1] @ d[:-1] + b * w[-1] * d[-1]) / ds
    t.close(Ra[:-1], rp * pr.raw(X * C)[0], 'equations in the augmented system', rtol=1e-12, atol=1e-13)
    t.close(Ra[-1], last, 'constraint in the augmented system', rtol=1e-10,
            atol=1e-11 * (1 + cc * (v @ v + abs(v @ d) * ds) / ds ** 2 + b * v[-1] ** 2 / ds ** 2), shape=False)
    check_jac(t, lambda x: ct.correct_res(pr, x, X0, ds, d)[0], X, Ja, c['seed'], 'augmented Jacobian', rtol=2e-5)
    # predictor
    P0 = X0 * C
    Pp = P0 - prev * C
    if abs(b - 0) < 1e-12 or abs(b - 1) < 1e-12:
        t.nontrivial()
        return
    try:
        want, _ = cont.signed(pr, P0, Pp, C, b, d if np.linalg.norm(d) > 1e-2 else prev)
    except cont.Fuzzy:
        t.skip('tangent or sign not defined')
    dp = d if np.linalg.norm(d) > 1e-2 else prev
    got = ct.predict(pr, P0.copy(), Pp.copy(), dp.copy())
    cos = abs(want @ dp) / np.linalg.norm(want) / np.linalg.norm(dp)
    t.close(got, want, 'predicted direction', rtol=1e-8 / cos * max(1, np.linalg.cond(pr.raw(P0)[1] * C)))
    t.nontrivial()
