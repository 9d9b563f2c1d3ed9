"""C04 Instantaneous nonlinear forces follow their documented laws."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr


def local_scale(s, u, v):
    f = ref.law_inst(s, u, v)
    return float(np.max(np.abs(f), initial=0.0)) * max(1.0, np.abs(arr(s['T'])).sum(axis=1).max())


def cond_scale(s, u, v):
    """magnitude of the terms that are added in the law (cancellation allowance)"""
    p, ty = s['p'], s['type']
    a = np.abs(u) + 1e-9
    if ty == 'genpoly':
        tot = np.ones((a.shape[0], len(p['q'])))
        for c, row in enumerate(p['q']):
            for j, e in enumerate(row):
                tot[:, c] *= a[:, j] ** e
        m = (tot @ np.abs(arr(p['E'])).T).max(initial=0)
    elif ty == 'unispring':
        m = np.max(np.abs(p['k'])) * (a.max() + np.max(np.abs(p['d']))) + np.max(np.abs(p['N']))
    else:
        m = np.max(np.abs(ref.law_inst(s, u, v)), initial=0)
    return float(m) * max(1e-9, np.abs(arr(s['T'])).sum(axis=1).max())




@st.composite
def static(draw):
    wide = draw(st.integers(0, 7)) == 0
    N = draw(st.integers(1, 4) if not wide else st.integers(5, 12))
    s = draw(forces.spec(forces.INST, N, big=wide))
    sc = draw(st.sampled_from([1.0, 1.0, 0.1, 5.0]))
    X = draw(gen.mat(draw(st.integers(1, 4)), N, sc))
    for i in range(len(X)):
        if draw(st.integers(0, 3)) == 0:
            X[i][draw(st.integers(0, N - 1))] = 0.0
    return dict(N=N, s=s, X=X, order=draw(st.permutations(list(range(len(X))))))


@clause(static, quick=2400, shards=3, rule='more than one local DOF or a rectangular map, non-zero force')
def static_force(c, t):
    s, X = c['s'], arr(c['X'])
    f = forces.build(s)
    Q, T = arr(s['Q']), arr(s['T'])
    first = {}
    for rnd in (0, 1):
        for i in (range(len(X)) if rnd == 0 else c['order']):
            x = X[i].copy()
            out = f.force(x)
            t.same(x, X[i], 'displacement modified')
            t.ok(isinstance(out, tuple) and len(out) == 2, 'force and derivative expected')
            F = np.array(out[0])
            if rnd == 0:
                first[i] = F
                u = (Q @ X[i])[None, :]
                want = T @ ref.law_inst(s, u, u)[0]
                t.close(F, want, '%s static force' % s['type'], rtol=1e-11, atol=1e-14, scale=cond_scale(s, u, u))
                t.nontrivial(np.abs(want).max() > 1e-6 and (Q.shape[0] > 1 or Q.shape[0] != Q.shape[1]))
            else:
                t.equal(F, first[i], 'depends on earlier calls')
    t.kept(lambda x: f.force(x), X[0], 2 * X[0] + .5, 'static force')
    t.same(arr(s['Q']), np.asarray(f.Q), 'Q modified')
    t.same(arr(s['T']), np.asarray(f.T), 'T modified')
    t.label(s['type'])


@st.composite
def hb(draw, types=forces.INST):
    wide = draw(st.integers(0, 7)) == 0
    N = draw(st.integers(1, 3) if not wide else st.integers(4, 8))
    s = draw(forces.spec(types, N, big=wide))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        h = draw(gen.harmonics(5) if not wide else gen.harmonics(14, max_n=8))
        Nt = draw(gen.nt_for(h) if not wide else gen.nt_for(h, choices=(32, 64, 100, 128, 256, 512)))
        calls.append(dict(h=h, Nt=Nt, w=draw(st.one_of(gen.num(0.1, 4), gen.num(-1, 1, 20))),
                          U=draw(gen.vec(ref.nhc(h) * N, 1.5))))
    return dict(N=N, s=s, calls=calls)


@clause(hb, quick=1800, shards=3, rule='non-zero harmonic force')
def harmonic_force(c, t):
    s = c['s']
    f = forces.build(s)
    Q = arr(s['Q'])
    res = []
    for k in c['calls']:
        h, U = np.array(k['h']), arr(k['U'])
        out = f.aft(U, k['w'], h, Nt=k['Nt'])
        t.ok(len(out) == 3, 'three outputs')
        F = np.array(out[0])
        t.same(U, arr(k['U']), 'U modified')
        t.same(h, np.array(k['h']), 'h modified')
        want = ref.aft(s, U, k['w'], k['h'], k['Nt'])
        Ul = ref.split(U, c['N'], k['h']) @ Q.T
        u, v = ref.series(k['h'], Ul, k['Nt']), k['w'] * ref.series(k['h'], Ul, k['Nt'], 1)
        t.close(F, want, '%s harmonic force' % s['type'], rtol=1e-10, atol=1e-13, scale=cond_scale(s, u, v))
        res.append(F)
        t.nontrivial(np.abs(want).max() > 1e-6)
    k = c['calls'][-1]
    t.kept(lambda V: f.aft(V, k['w'], np.array(k['h']), Nt=k['Nt']), arr(k['U']), 2 * arr(k['U']) + .5, 'harmonic force')
    for k, F in zip(c['calls'], res):
        t.equal(np.array(f.aft(arr(k['U']), k['w'], np.array(k['h']), Nt=k['Nt'])[0]), F, 'depends on earlier calls')
    t.label(s['type'], 'calls%d' % len(res))


@st.composite
def loc(draw):
    ty = draw(st.sampled_from(forces.INST))
    n = draw(forces.nnl_for(ty))
    s = dict(type=ty, p=draw(forces.params(ty, n)), Q=np.eye(n).tolist(), T=np.eye(n).tolist())
    Nt = draw(st.integers(1, 12))
    u, v = draw(gen.mat(Nt, n, 1.5)), draw(gen.mat(Nt, n, 3.0))
    if draw(st.booleans()):
        i, j = draw(st.integers(0, Nt - 1)), draw(st.integers(0, n - 1))
        u[i][j] = 0.0
        v[i][j] = 0.0
    return dict(s=s, u=u, v=v)


@clause(loc, quick=1200, rule='non-zero force')
def local_history(c, t):
    s, u, v = c['s'], arr(c['u']), arr(c['v'])
    f = forces.build(s)
    u1, v1 = u.copy(), v.copy()
    out = f.local_force_history(u1, v1)
    ft = np.asarray(out[0])
    t.same(u1, u, 'displacements modified')
    t.same(v1, v, 'velocities modified')
    t.kept(lambda z: f.local_force_history(z[0], z[1])[:3], np.array([u, v]), np.array([2 * u + 1, v + 1]), 'local force')
    want = ref.law_inst(s, u, v)
    t.close(ft, want, '%s local force' % s['type'], rtol=1e-11, atol=1e-14, scale=cond_scale(s, u, v))
    t.nontrivial(np.abs(want).max() > 1e-6)
    t.label(s['type'])
    if s['type'] in ('unispring', 'iwanbb', 'cubic', 'quintic'):
        t.close(ft, np.asarray(f.local_force_history(u1, 0 * v1)[0]), 'velocity enters', rtol=0)
    if s['type'] == 'iwanbb':
        t.ok(np.all(np.abs(ft) <= s['p']['Fs'] * (1 + 1e-12)), 'slip limit exceeded')
        big = f.local_force_history(np.sign(u) * 1e6, v)[0]
        t.close(big, np.sign(u) * s['p']['Fs'], 'force after slip', rtol=1e-12)


@st.composite
def both(draw):
    d = draw(hb())
    d['calls'] = d['calls'][:1]
    return d


@clause(both, quick=800, rule='non-zero force with at least two local DOFs')
def static_equals_zero_harmonic(c, t):
    """A motionless harmonic solution (only harmonic 0) has the static force as harmonic 0 and nothing else."""
    s, k = c['s'], c['calls'][0]
    h = [0] + [x for x in k['h'] if x]
    U = np.zeros(ref.nhc(h) * c['N'])
    U[:c['N']] = arr(k['U'])[:c['N']]
    f = forces.build(s)
    F = np.asarray(f.aft(U, k['w'], np.array(h), Nt=k['Nt'])[0])
    x = U[:c['N']].copy()
    sc = cond_scale(s, (arr(s['Q']) @ x)[None, :], np.zeros((1, len(s['Q']))))
    if s['type'] == 'cubdamp':
        want = 0 * x
    else:
        want = np.asarray(f.force(x)[0])
    t.close(F[:c['N']], want, 'static force as harmonic 0', rtol=1e-10, atol=1e-13, scale=sc)
    t.close(F[c['N']:], 0 * F[c['N']:], 'other harmonics', atol=1e-13 + 1e-10 * sc)
    t.nontrivial(np.abs(want).max() > 1e-6 and len(s['Q']) > 1)
