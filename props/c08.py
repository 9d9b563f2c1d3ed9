"""C08 Elastic dry friction: contact and Coulomb limits over any history (model-based)."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr
from pbt.fd import jitter

HS = ([0, 1], 16), ([0, 1, 2, 5], 32), ([1, 3], 32)


class Model:
    """Independent elastic dry friction element(s)."""

    def __init__(self, s):
        self.p, self.dim = dict(s['p']), 2 if s['type'] == 'eldry2d' else 3
        self.n = len(s['Q'])
        self.mu = self.p['mu']
        self.reset()

    def reset(self):
        self.u = np.zeros(self.n)
        self.f = np.zeros(self.n)

    def eval(self, u):
        f = np.zeros(self.n)
        p, d = self.p, self.dim
        slip = stick = 0
        tie = np.inf
        for e in range(self.n // d):
            i = e * d + d - 1
            f[i] = max(p['kn'] * (u[i] - p['gap']), 0.0)
            for a in range(d - 1):
                j = e * d + a
                pr = self.f[j] + p['kt'] * (u[j] - self.u[j])
                lim = self.mu * f[i]
                f[j] = min(max(pr, -lim), lim)
                slip += abs(pr) > lim > 0
                stick += abs(pr) < lim
        return f, slip, stick


@st.composite
def static(draw):
    N = draw(st.integers(1, 4))
    s = draw(forces.spec(forces.ELDRY, N))
    amp = draw(st.sampled_from([0.3, 1.0, 2.0]))
    ops = []
    s['p']['gap'] = draw(gen.num(-1.5, 0.4, 38))
    s['p']['mu'] = draw(gen.num(0.05, 1.0, 19))
    kinds = ['trial'] * 4 + ['commit'] * 10 + ['reset', 'pre', 'restore', 'aft', 'start']
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(kinds))
        ops.append([k, draw(gen.vec(N, amp))] if k in ('trial', 'commit', 'start') else [k])
    return dict(N=N, s=s, ops=ops)


@clause(static, quick=1200, shards=3, rule='two commits at least, with slip and stick')
def static_history(c, t):
    s = c['s']
    f = forces.build(s)
    Q, T = arr(s['Q']), arr(s['T'])
    m = Model(s)
    slips = sticks = commits = 0
    for i, op in enumerate(c['ops']):
        k = op[0]
        if k == 'reset':
            f.init_history()
            m.reset()
        elif k == 'pre':
            f.set_prestress_mu()
            m.mu = 0.0
        elif k == 'restore':
            f.reset_real_mu()
            m.mu = m.p['mu']
        elif k == 'start':           # start position of harmonic analyses: no influence on the static history
            f.set_aft_initialize(arr(op[1]))
        elif k == 'aft':             # harmonic evaluation in between: no influence either
            f.aft(np.linspace(-1, 1, 3 * c['N']), 1.0, np.array([0, 1]), Nt=16, calc_grad=False)
        else:
            X = arr(op[1])
            want, sl, sk = m.eval(Q @ X)
            X1 = X.copy()
            F = np.array(f.force(X1, update_hist=True)[0] if k == 'commit' else f.force(X1)[0])
            t.same(X1, X, 'displacement modified')
            sc = (np.abs(want).max() + np.abs(m.f).max() + s['p']['kt'] * np.abs(Q @ X - m.u).max()) * (
                np.abs(T).sum(axis=1).max() + 1e-9)
            t.close(F, T @ want, 'op %d (%s) force' % (i, k), rtol=1e-10, atol=1e-13, scale=sc)
            slips += sl
            sticks += sk
            if k == 'commit':
                m.u, m.f = Q @ X, want
                commits += 1
    t.label(s['type'], *sorted({o[0] for o in c['ops']}))
    t.nontrivial(commits > 1 and slips and sticks)


def start_of(s, Ul):
    n, dim = len(s['Q']), 2 if s['type'] == 'eldry2d' else 3
    tang = [i for i in range(n) if i % dim != dim - 1]
    u0 = s['p']['u0']
    if u0 is None:
        return Ul[0, tang]
    return (np.asarray(u0, dtype=float) * np.ones(n))[tang]


@st.composite
def hb(draw):
    N = draw(st.integers(1, 3))
    s = draw(forces.spec(forces.ELDRY, N))
    if len(s['Q']) > 3:
        h, Nt = [0, 1], 16
    else:
        h, Nt = draw(st.sampled_from(HS))
    s['p']['mu'] = draw(gen.num(0.0, 0.8, 20))
    return dict(N=N, s=s, h=h, Nt=Nt, U=draw(gen.vec(ref.nhc(h) * N, draw(st.sampled_from([0.5, 1.5])))),
                seed=draw(st.integers(0, 9999)), starts=draw(st.lists(gen.vec(N, 1.0), max_size=3)),
                between=draw(st.booleans()), pre=draw(st.integers(0, 3)) == 0)


@clause(hb, quick=500, shards=3, rule='contact with friction force during the cycle')
def harmonic_history(c, t):
    s = dict(c['s'], p=dict(c['s']['p']))
    shared = {}
    f = forces.build(s, shared)
    U, h = jitter(c['U'], c['seed']), np.array(c['h'])
    Q, T = arr(s['Q']), arr(s['T'])
    for x in c['starts']:                # the latest start position counts, also after an evaluation
        if c['between']:
            f.aft(U.copy(), 1.3, h, Nt=c['Nt'], calc_grad=False)
        f.set_aft_initialize(arr(x))
        s['p']['u0'] = (Q @ arr(x)).tolist()
    t.label('%d starts' % len(c['starts']))
    if c['pre']:
        f.set_prestress_mu()
        s['p']['mu'] = 0.0
    dim = 2 if s['type'] == 'eldry2d' else 3

    def reference():
        Ul = ref.split(U, c['N'], c['h']) @ Q.T
        u = ref.series(c['h'], Ul, c['Nt'])
        ft = ref.march_eldry(s['p'], u, start_of(s, Ul), 2, dim)
        return Ul, u, ft
    Ul, u, ft = reference()
    sc = (np.abs(ft).max() + s['p']['kt'] * np.abs(u).max() * 1e-2) * (np.abs(T).sum(axis=1).max() + 1e-9)
    out = f.aft(U.copy(), 1.3, h, Nt=c['Nt'])
    want = (ref.project(c['h'], ft) @ T.T).reshape(-1)
    t.close(out[0], want, 'harmonic force', rtol=1e-9, atol=1e-13, scale=sc)
    t.close(out[2], 0 * want, 'frequency derivative', rtol=0, atol=1e-13)
    t.close(f.aft(U.copy(), 1.3, h, Nt=c['Nt'], calc_grad=False)[0], want, 'harmonic force without gradient',
            rtol=1e-9, atol=1e-13, scale=sc)
    # exported history is the one used
    cst = ref.basis(c['h'], np.arange(c['Nt']) / c['Nt'])
    lf = np.asarray(f.local_force_history(u, 0 * u, h, cst, Ul[0])[0])
    t.close(lf, ft, 'exported local force history', rtol=1e-9, atol=1e-13,
            scale=np.abs(ft).max() + s['p']['kt'] * np.abs(u).max() * 1e-2)
    lim = np.repeat(lf[:, dim - 1::dim], dim - 1, axis=1) * s['p']['mu']
    tang = lf[:, [i for i in range(lf.shape[1]) if i % dim != dim - 1]]
    t.ok(np.all(np.abs(tang) <= lim * (1 + 1e-9) + 1e-12), 'Coulomb limit exceeded')
    t.ok(np.all(lf[:, dim - 1::dim] >= 0), 'tensile normal force')
    if c['pre']:
        f.reset_real_mu()
        s['p']['mu'] = c['s']['p']['mu']
        Ul, u, ft = reference()
        want = (ref.project(c['h'], ft) @ T.T).reshape(-1)
        t.close(f.aft(U.copy(), 1.3, h, Nt=c['Nt'], calc_grad=False)[0], want, 'after restoring friction', rtol=1e-9,
                atol=1e-13, scale=sc + np.abs(ft).max())
    forces.unchanged(t, shared)
    t.label(s['type'], 'pre' if c['pre'] else 'fric')
    t.nontrivial(np.any(tang) or (c['pre'] and np.any(lf)))
