"""C06 Jenkins and Iwan elements follow the slider model over any load history (model-based, op sequences)."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr


@st.composite
def seq(draw, types, prestress):
    N = draw(st.one_of(st.integers(1, 3), st.integers(1, 6)))
    s = draw(forces.spec(types, N))
    amp = draw(st.sampled_from([0.3, 1.0, 3.0]))
    kinds = ['trial', 'trial', 'commit', 'commit', 'commit', 'reset'] + (['pre', 'restore'] if prestress else [])
    ops = []
    for _ in range(draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 30)))):
        k = draw(st.sampled_from(kinds))
        ops.append([k, draw(gen.vec(N, amp))] if k in ('trial', 'commit') else [k])
    return dict(N=N, s=s, ops=ops)


def run(c, t):
    s = c['s']
    f = forces.build(s)
    f.init_history()
    Q, T = arr(s['Q']), arr(s['T'])
    m = ref.sliders_of(s)
    lim = m.f.copy()
    slips = sticks = commits = 0
    kept = []
    maxw = float(np.sum(lim)) * np.abs(T).max(initial=0)
    for i, op in enumerate(c['ops']):
        k = op[0]
        if k == 'reset':
            f.init_history()
            m.reset()
        elif k == 'pre':
            f.set_prestress_mu()
            m.f = np.zeros_like(lim)
        elif k == 'restore':
            f.reset_real_mu()
            m.f = lim.copy()
        else:
            X = arr(op[1])
            u = float((Q @ X)[0])
            q, pred = m.trial(u)
            X1 = X.copy()
            F, J = f.force(X1, update_hist=True) if k == 'commit' else f.force(X1)
            kept.append((F, np.array(F), J, np.array(J)))
            F, J = np.array(F), np.array(J)
            t.same(X1, X, 'displacement modified')
            sc = maxw + float(np.sum(m.k)) * abs(u - m.u) * 1e-3
            t.close(F, T[:, 0] * q.sum(), 'op %d (%s) force' % (i, k), rtol=1e-11, atol=1e-13, scale=sc)
            t.ok(np.all(np.abs(F) <= np.abs(T[:, 0]) * m.f.sum() * (1 + 1e-10) + 1e-14), 'slip limit exceeded', F=F)
            near = np.any(np.abs(np.abs(pred) - m.f) < 1e-9 * (1 + m.f))
            slip = np.abs(pred) > m.f
            if not near:
                t.close(J, np.outer(T[:, 0], Q[0]) * np.sum(m.k[~slip]), 'op %d stiffness' % i, rtol=1e-10,
                        atol=1e-12, scale=np.sum(m.k) * np.abs(T).max() * np.abs(Q).max())
            t.equal(np.array(f.force(X.copy())[0]) if k == 'trial' else F, F, 'trial not repeatable')
            slips += bool(np.any(slip))
            sticks += bool(np.any(~slip))
            if k == 'commit':
                m.commit(u, q)
                commits += 1
    for i, (F, F0, J, J0) in enumerate(kept):
        t.same(F, F0, 'force returned by evaluation %d changed by later operations' % i)
        t.same(J, J0, 'stiffness returned by evaluation %d changed by later operations' % i)
    t.label(s['type'], *sorted({o[0] for o in c['ops']}))
    t.nontrivial(commits > 1 and slips and sticks)


@clause(lambda: seq(('jenkins', 'vecjenkins'), True), quick=1800, shards=2,
        rule='at least two commits, with slip and stick')
def jenkins_history(c, t):
    run(c, t)


@clause(lambda: seq(('iwan4', 'veciwan4'), False), quick=1800, shards=2, rule='at least two commits, slip and stick')
def iwan_history(c, t):
    run(c, t)


@st.composite
def prestress(draw):
    N = draw(st.one_of(st.integers(1, 3), st.integers(1, 6)))
    s = draw(forces.spec(('jenkins', 'vecjenkins'), N))
    k = draw(st.lists(st.sampled_from(['pre', 'restore', 'commit', 'trial']), min_size=1, max_size=8))
    return dict(N=N, s=s, k=k, X=draw(gen.mat(8, N, 3.0)), Y=draw(gen.mat(3, N, 3.0)))


@clause(prestress, quick=800, rule='prestress mode entered and left')
def restore_is_exact(c, t):
    """However often prestress mode is entered/left, after restoring a fresh history behaves like an untouched element."""
    f, g = forces.build(c['s']), forces.build(c['s'])
    f.init_history()
    g.init_history()
    pre = False
    for i, k in enumerate(c['k']):
        if k == 'pre':
            f.set_prestress_mu()
            pre = True
        elif k == 'restore':
            f.reset_real_mu()
            pre = False
        else:
            F = f.force(arr(c['X'][i]), update_hist=(k == 'commit'))[0]
            if pre:
                t.close(F, 0 * F, 'force in prestress mode', rtol=0)
    f.reset_real_mu()
    f.init_history()
    for y in c['Y']:
        a, b = f.force(arr(y), update_hist=True), g.force(arr(y), update_hist=True)
        t.equal(np.array(a[0]), np.array(b[0]), 'force after restore')
        t.equal(np.array(a[1]), np.array(b[1]), 'stiffness after restore')
    h = np.array([0, 1])
    U = arr(c['X']).reshape(-1)[:3 * c['N']]
    t.equal(np.array(f.aft(U, 1.0, h, Nt=16)[0]), np.array(g.aft(U, 1.0, h, Nt=16)[0]), 'AFT after restore')
    t.nontrivial('pre' in c['k'])


@st.composite
def bb(draw):
    p = draw(forces.params('iwan4', 1))
    p['chi'] = max(p['chi'], -0.5)
    p['n'] = draw(st.sampled_from([200, 300]))
    p['alpha'] = draw(st.sampled_from([1.0, 1.005]))
    return dict(p=p, x=draw(gen.num(0.02, 1.6)), ty=draw(st.sampled_from(['iwan4', 'veciwan4'])),
                y=draw(gen.num(-1.0, 1.0)))


@clause(bb, quick=400, rule='macroslip or reversal reached')
def iwan_is_the_four_parameter_model(c, t):
    """Fine discretisation reproduces the closed form 4-parameter backbone and its Masing unloading."""
    p = c['p']
    s = dict(type=c['ty'], p=p, Q=[[1.0]], T=[[1.0]])
    f = forces.build(s)
    f.init_history()
    rat = (p['chi'] + 1) / (p['chi'] + 2)
    phimax = p['Fs'] * (1 + p['beta']) / (p['kt'] * (p['beta'] + rat))
    bbs = dict(type='iwanbb', p=p)
    law = (lambda u: float(ref.law_inst(bbs, np.array([[u]]), None)[0, 0]))
    u = c['x'] * phimax
    F = float(f.force(np.array([u]), update_hist=True)[0][0])
    tol = 0.03 * p['Fs']
    t.close(F, law(u), 'initial loading', rtol=0, atol=tol)
    v = u * c['y']
    F2 = float(f.force(np.array([v]), update_hist=True)[0][0])
    t.close(F2, law(u) - 2 * law((u - v) / 2), 'Masing unloading', rtol=0, atol=2 * tol)
    F3 = float(f.force(np.array([u]))[0][0])
    t.close(F3, F, 'loop closes at the reversal point', rtol=1e-9, scale=p['Fs'])
    far = float(f.force(np.array([100 * phimax]))[0][0])
    t.close(far, p['Fs'], 'macroslip force', rtol=0, atol=tol)
    t.nontrivial(c['x'] > 1 or c['y'] < 0.8)
