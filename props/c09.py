"""C09 Rough contact friction follows the asperity model over any history (model-based)."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr
from pbt.rough import Rough

EYE = np.eye(3).tolist()


@st.composite
def rspec(draw, local=False):
    ty = draw(st.sampled_from(forces.ROUGH))
    N = 3 if local else draw(st.integers(1, 3))
    s = draw(forces.spec((ty,), N))
    if local:
        s['Q'], s['T'] = EYE, EYE
    s['p']['mu'] = draw(gen.num(0.0, 1.0, 20))
    return N, s


@st.composite
def static(draw):
    loc = draw(st.integers(0, 3)) > 0
    N, s = draw(rspec(loc))
    amp = draw(st.sampled_from([0.02, 0.05, 0.1]))
    kinds = ['trial'] * 4 + ['commit'] * 10 + ['reset', 'pre', 'restore', 'aft', 'start']
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(kinds))
        if k in ('trial', 'commit', 'start'):
            if loc:
                x = draw(gen.vec(3, amp))
                x[2] = abs(x[2]) if draw(st.integers(0, 4)) else x[2]
                x[0], x[1] = x[0] * 0.2, x[1] * 0.2
            else:
                x = draw(gen.vec(N, 2.0))
            ops.append([k, x])
        else:
            ops.append([k])
    return dict(N=N, s=s, ops=ops)


@clause(static, quick=1000, shards=2, rule='contact in at least three evaluations with friction force and two commits')
def static_history(c, t):
    s = c['s']
    f = forces.build(s)
    Q, T = arr(s['Q']), arr(s['T'])
    m = Rough(s)
    contact = commits = fric = 0
    kinds = set()
    for i, op in enumerate(c['ops']):
        k = op[0]
        if k == 'reset':
            f.init_history()
            m.reset()
        elif k == 'pre':
            f.set_prestress_mu()
            m.mu = 0.0
        elif k == 'restore':
            f.reset_real_mu()
            m.mu = m.realmu
        elif k == 'start':
            f.set_aft_initialize(arr(op[1]))
        elif k == 'aft':
            f.aft(np.linspace(-0.1, 0.1, 3 * c['N']), 1.0, np.array([0, 1]), Nt=16, calc_grad=False)
        else:
            X = arr(op[1])
            u = Q @ X
            want, state, info = m.eval(u)
            if info['amb'] < 1e-12:
                t.skip('exactly at a branch limit')
            kinds |= info['kinds']
            X1 = X.copy()
            F, J, aux = f.force(X1, update_hist=(k == 'commit'), return_aux=True)
            t.same(X1, X, 'displacement modified')
            F = np.array(F)
            sc = (np.abs(want).max() + np.sum(m.gw * (m.Fm + info['fn'])) + 1e-9) * (np.abs(T).sum(axis=1).max() + 1e-9)
            t.close(F, T @ want, 'op %d (%s) force' % (i, k), rtol=1e-8, atol=1e-12, scale=sc)
            t.ok(np.all(np.isfinite(np.array(J))), 'derivative not finite')
            t.close(np.array(aux[0]), state[1], 'largest normal force memory', rtol=1e-8, atol=1e-13)
            if not m.mif:
                lim = m.mu * info['fn'][:, None] * np.ones(2)
                t.ok(np.all(np.abs(np.array(aux[1])) <= lim * (1 + 1e-8) + 1e-13), 'friction limit exceeded')
            t.close(np.array(aux[4]), state[3], 'contact radius', rtol=1e-7, atol=1e-9)
            contact += np.any(info['fn'] > 0)
            fric += np.any(want[:2])
            if not np.any(info['fn'] > 0):
                t.close(F, 0 * F, 'force without contact', rtol=0)
            if k == 'commit':
                m.commit(state)
                commits += 1
    t.label(s['type'], *kinds)
    t.nontrivial(commits > 1 and contact > 2 and fric)


@st.composite
def cyc(draw):
    loc = draw(st.integers(0, 3)) > 0
    N, s = draw(rspec(loc))
    h, Nt = draw(st.sampled_from([([0, 1], 16), ([0, 1, 4], 32)]))
    n = ref.nhc(h)
    U = np.array(draw(gen.mat(n, N, 0.03 if loc else 1.2)))
    if loc:
        U[:, :2] *= 0.5
        U[0, 2] += 0.03
    return dict(N=N, s=s, h=h, Nt=Nt, U=U.reshape(-1).tolist(), loc=loc,
                start=draw(st.one_of(st.none(), gen.vec(N, 0.03 if loc else 1.0))), pre=draw(st.integers(0, 4)) == 0)


@clause(cyc, quick=240, shards=3, rule='contact with friction during the cycle')
def harmonic_force(c, t):
    """Harmonic force = projection of the reference cycled twice on the unloading curve of the largest approach."""
    s, h, U = c['s'], np.array(c['h']), arr(c['U'])
    shared = {}
    f = forces.build(s, shared)
    Q, T = arr(s['Q']), arr(s['T'])
    u0 = s['p']['u0']
    u0 = np.concatenate((arr(u0), [0.0]))[:3] if isinstance(u0, list) else np.array([u0, u0, 0.0])
    if c['start'] is not None:
        f.set_aft_initialize(arr(c['start']))
        u0 = Q @ arr(c['start'])
    m = Rough(s)
    if c['pre']:
        f.set_prestress_mu()
        m.mu = 0.0
    Ul = ref.split(U, c['N'], c['h']) @ Q.T
    u = ref.series(c['h'], Ul, c['Nt'])
    want_t, slip = m.cycle(u, u0)
    if m.near < 1e-9:
        t.skip('exactly at yield')
    Tn = np.abs(T).sum(axis=1).max() + 1e-9
    want = (ref.project(c['h'], want_t) @ T.T).reshape(-1)
    out = f.aft(U.copy(), 1.0, h, Nt=c['Nt'])
    sc = (np.abs(want_t).max() + 1e-9) * Tn
    t.close(out[0], want, 'harmonic force', rtol=1e-7, atol=1e-12, scale=sc)
    t.close(f.aft(U.copy(), 1.0, h, Nt=c['Nt'], calc_grad=False)[0], want, 'harmonic force without gradient',
            rtol=1e-7, atol=1e-12, scale=sc)
    t.close(out[2], 0 * want, 'frequency derivative', rtol=0, atol=1e-13)
    cst = ref.basis(c['h'], np.arange(c['Nt']) / c['Nt'])
    lf = f.local_force_history(u, 0 * u, h, cst, u0)
    lf = np.asarray(lf[0] if isinstance(lf, tuple) else lf)
    t.close(lf, want_t, 'local force history', rtol=1e-7, atol=1e-12, scale=np.abs(want_t).max())
    t.ok(np.all(lf[:, 2] >= -1e-15), 'tension')
    t.ok(np.all(np.abs(lf[:, :2]) <= m.mu * lf[:, 2:] * (1 + 1e-8) + 1e-13), 'friction limit exceeded')
    forces.unchanged(t, shared)
    t.label(s['type'], 'slip' if slip else 'stick', 'mat%d' % s['p']['mat'])
    t.nontrivial(np.any(want_t[:, :2]) or (c['pre'] and np.any(want_t)))


@clause(cyc, quick=160, shards=2, rule='contact with friction during the cycle')
def harmonic_equals_static_cycled(c, t):
    """Committing the largest approach and then cycling the static element twice gives the harmonic force (no
    reference model involved)."""
    if not c['loc']:
        c = dict(c)
    s, h, U = c['s'], np.array(c['h']), arr(c['U'])
    f = forces.build(s)
    Q, T = arr(s['Q']), arr(s['T'])
    g = forces.build(dict(s, Q=EYE, T=EYE))
    u0 = s['p']['u0']
    u0 = np.concatenate((arr(u0), [0.0]))[:3] if isinstance(u0, list) else np.array([u0, u0, 0.0])
    Ul = ref.split(U, c['N'], c['h']) @ Q.T
    u = ref.series(c['h'], Ul, c['Nt'])
    gap = s['p']['mgap'] + arr(s['p']['gaps'])
    m = Rough(s)
    if np.min(np.abs(u[:, 2].max() - gap - 1.9 * m.dy)) < 1e-9:
        t.skip('exactly at yield')
    if u[:, 2].max() < 0:
        t.skip('never approaches')
    g.init_history()
    g.set_prestress_mu()
    g.force(np.array([u0[0], u0[1], u[:, 2].max()]), update_hist=True)
    g.reset_real_mu()
    ft = np.zeros((c['Nt'], 3))
    for _ in range(2):
        for i in range(c['Nt']):
            ft[i] = np.array(g.force(u[i].copy(), update_hist=True)[0])
    want = (ref.project(c['h'], ft) @ T.T).reshape(-1)
    t.close(f.aft(U.copy(), 1.0, h, Nt=c['Nt'])[0], want, 'harmonic vs cycled static force', rtol=1e-7, atol=1e-12,
            scale=(np.abs(ft).max() + 1e-9) * (np.abs(T).sum(axis=1).max() + 1e-9))
    t.label(s['type'])
    t.nontrivial(np.any(ft[:, :2]))
