"""C18 System-level static analysis and configuration act on all forces coherently."""
import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import check_jac, jitter

STATIC = ('cubic', 'quintic', 'genpoly', 'unispring', 'iwanbb', 'cubdamp')
NUMPY = STATIC + ('jenkins', 'vecjenkins', 'jenkins', 'iwan4', 'veciwan4')
COMPILED = ('eldry2d', 'eldry3d', 'eldry3d', 'cubic', 'jenkins')
ROUGH = ('roughtan', 'roughmif', 'eldry2d')


@st.composite
def op(draw, N, kinds, nh):
    k = draw(st.sampled_from(kinds))
    o = dict(op=k)
    if k in ('static', 'trial', 'update', 'aftinit'):
        o['u'] = draw(gen.vec(N, 2.0))
    if k == 'static':
        o['F'] = draw(gen.vec(N, 2.0))
    if k in ('aft', 'noisyaft'):
        o['U'] = draw(gen.vec(nh * N, 2.0))
    if k == 'setC':
        o['kind'] = draw(st.sampled_from(['C', 'ab', 'both', 'none']))
        o['C'] = draw(gen.mat(N, N, 0.4))
        o['ab'] = [draw(gen.num(0, 0.3, 60)), draw(gen.num(0, 0.3, 60))]
    if k == 'damping':
        o['U'] = draw(gen.vec(nh * N, 2.0))
        o['w'] = draw(gen.num(0.3, 2.5))
    return o


BASE = ('static', 'static', 'trial', 'update', 'update', 'init', 'aft')


@st.composite
def case(draw, types, nf, h, Nt, N=None, maxops=12):
    s = draw(systems.system(types, N=N, nf=nf))
    tys = [f['type'] for f in s['forces']]
    hyst = [f for f in s['forces'] if f['type'] not in forces.INST]
    if hyst and draw(st.integers(0, 3)) == 0:
        # a second element with the same parameters at another displacement
        s['forces'].append(dict(hyst[0], Q=(0.5 * np.array(hyst[0]['Q'])).tolist()))
    kinds = list(BASE) + ['setC', 'damping', 'add', 'aftinit']
    if not any(x in ('iwan4', 'veciwan4') for x in tys):
        kinds += ['pre', 'real']
    n0 = max(0, len(s['forces']) - draw(st.sampled_from([0, 0, 0, 1, 2])))
    ops = draw(st.lists(op(s['N'], kinds, ref.nhc(h)), min_size=3, max_size=maxops))
    return dict(s=s, n0=n0, h=h, Nt=Nt, ops=ops, seed=draw(st.integers(0, 9999)),
                x0=draw(gen.vec(s['N'], 1.0)), share=draw(st.booleans()))


def num_case():
    return case(NUMPY, (1, 4), [0, 1, 3], 16)


def jax_case():
    return case(COMPILED, (1, 3), [0, 1], 16, N=2, maxops=9)


def rough_case():
    return case(ROUGH, (1, 2), [0, 1], 16, N=2, maxops=8)


class Model:
    """A list of independent elements plus the current damping definition."""

    def __init__(self, s):
        self.M, self.C, self.K = systems.mats(s)
        self.ab = s.get('ab')
        self.el = []

    def each(self, name, *a, hyst=False, **k):
        for e in self.el:
            if hyst and not e._verif_hysteretic:       # by construction, not by what the element says of itself
                continue
            f = getattr(e, name, None)
            if callable(f):
                f(*a, **k)


def run(c, t):
    s, h, Nt = c['s'], np.array(c['h']), c['Nt']
    N = s['N']
    given = {}
    vs = systems.build(s, [], given)
    m = Model(s)
    todo = list(s['forces'])
    shared = {}

    def add():
        if not todo:
            return
        f = todo.pop(0)
        for model, add_to in enumerate((vs.add_nl_force, m.el.append)):
            o = forces.build(f, shared if c['share'] and not model else None)
            o._verif_hysteretic = f['type'] not in forces.INST
            o._verif_damper = f['type'] == 'cubdamp'           # no force at rest
            if o._verif_hysteretic:
                o.init_history()
            add_to(o)
    for _ in range(c['n0']):
        add()
    n_static = n_hist = 0
    for o in c['ops'] + [dict(op='static', u=c['x0'], F=[0.0] * N)]:
        k = o['op']
        u = arr(o['u']) if 'u' in o else None
        if k == 'add':
            add()
        elif k == 'init':
            vs.init_force_history()
            m.each('init_history', hyst=True)
        elif k == 'update':
            vs.update_force_history(u)
            m.each('force', u, hyst=True, update_hist=True)
            n_hist += 1
        elif k == 'pre':
            vs.set_prestress_mu()
            m.each('set_prestress_mu')
        elif k == 'real':
            vs.reset_real_mu()
            m.each('reset_real_mu')
        elif k == 'aftinit':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                vs.set_aft_initialize(u)
            m.each('set_aft_initialize', u)
        elif k == 'setC':
            kw = {}
            if o['kind'] in ('C', 'both'):
                kw['C'] = arr(o['C'])
            if o['kind'] in ('ab', 'both'):
                kw['ab'] = list(o['ab'])
            given.update({'set_new_C %d %s' % (len(given), q): (v, np.array(v)) for q, v in kw.items()})
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                vs.set_new_C(**kw)
            if 'ab' in kw:
                m.ab, m.C = o['ab'], o['ab'][0] * m.M + o['ab'][1] * m.K
            elif 'C' in kw:
                m.ab, m.C = None, arr(o['C'])
            t.label('damping-' + o['kind'])
        elif k == 'trial':
            vs.static_res(u, np.ones(N))           # never changes any history: the model does nothing
        elif k == 'static':
            F = arr(o['F'])
            u0, F0 = u.copy(), F.copy()
            R, J = vs.static_res(u, F)
            t.same(u, u0, 'U modified')
            t.same(F, F0, 'Fstatic modified')
            want, Jw = m.K @ u - F, m.K.copy()
            sc = np.abs(m.K).max() * np.abs(u).max() * N + np.abs(F).max()
            for e in m.el:
                if e._verif_damper:
                    continue
                f, d = e.force(u)[:2]
                want, Jw = want + np.array(f), Jw + np.array(d)
                sc += np.abs(np.array(f)).max()
            t.close(np.array(R), want, 'static residual', rtol=1e-12, atol=1e-14, scale=sc)
            t.close(np.array(J), Jw, 'static Jacobian', rtol=1e-12, atol=1e-13, scale=np.abs(Jw).max() + sc)
            t.kept(lambda v: vs.static_res(v, F), u, 1.1 * u + .01, 'static residual')
            n_static += 1
        elif k == 'aft':
            U = arr(o['U'])
            out = vs.total_aft(U, 1.0, h, Nt=Nt)
            want = np.zeros(U.size)
            sc = 0.0
            for e in m.el:
                f = np.array(e.aft(U, 1.0, h, Nt)[0])
                want = want + f
                sc += np.abs(f).max()
            t.close(np.array(out[0]), want, 'total harmonic force', rtol=1e-12, atol=1e-14, scale=sc)
        elif k == 'damping':
            U, w = arr(o['U']), o['w']
            out = vs.hbm_res(np.hstack((U, w)), np.zeros(U.size), h, Nt=Nt)[0]
            # forces see the evaluation too (NumPy hysteretic elements share their state with the harmonic analysis)
            f = np.zeros(U.size)
            for e in m.el:
                f = f + np.array(e.aft(U, w, h, Nt)[0])
            L = ref.lin_res(m.M, m.C, m.K, U, w, c['h'])
            t.close(np.array(out), L + f, 'harmonic residual with the current damping', rtol=1e-11, atol=1e-12,
                    scale=np.abs(L).max() + np.abs(f).max() + 100 * np.abs(U).max())
            Fl, wv = np.ones(N), np.array([w])
            A = m.K - w ** 2 * m.M + 1j * w * m.C
            if np.linalg.cond(A) < 1e6:
                from tmdsimpy.solvers import NonlinearSolver
                try:
                    X = vs.linear_frf(wv, Fl, NonlinearSolver(), neigs=N)
                except AssertionError:
                    X = None                       # refused: not proportionally damped
                    t.ok(m.ab is None, 'linear_frf refused although the damping is proportional')
                if X is not None:
                    x = np.linalg.solve(A, Fl)
                    t.close(X[0, :-1], np.hstack((x.real, -x.imag)), 'frequency response uses the current damping',
                            rtol=1e-10 * np.linalg.cond(A), atol=1e-12)
    forces.unchanged(t, shared)
    for q, (v, was) in given.items():
        t.same(v, was, 'the array of the caller given as %s is modified' % q)
    t.label('shared arrays' if c['share'] else 'own arrays')
    t.label(*[f['type'] for f in s['forces']])
    t.label(*[o['op'] for o in c['ops']])
    t.nontrivial(len(m.el) > 0 and n_static > 0 and n_hist > 0
                 and any(e._verif_hysteretic for e in m.el))


R = 'history committed and static residual compared with a hysteretic force attached'


@clause(num_case, quick=2400, shards=4, rule=R)
def operations(c, t):
    """Any operation list: the system equals independent elements driven with the same operations."""
    run(c, t)


@clause(jax_case, quick=300, shards=2, rule=R)
def operations_compiled(c, t):
    run(c, t)


@clause(rough_case, quick=60, shards=2, rule=R)
def operations_rough(c, t):
    run(c, t)


@clause(num_case, quick=600, shards=2, rule='informative direction with forces attached')
def static_jacobian(c, t):
    """Exact Jacobian of the static residual after a committed state; FD of the residual itself."""
    s = c['s']
    vs = systems.build(s)
    vs.init_force_history()
    for o in c['ops']:
        if o['op'] == 'update':
            vs.update_force_history(arr(o['u']))
        elif o['op'] == 'pre':
            vs.set_prestress_mu()
        elif o['op'] == 'real':
            vs.reset_real_mu()
    x = 1.5 * jitter(c['x0'], c['seed'])
    F = np.ones(s['N'])
    J = np.array(vs.static_res(x, F)[1])
    n = check_jac(t, lambda y: vs.static_res(y, F)[0], x, J, c['seed'], 'static Jacobian')
    t.label(*[f['type'] for f in s['forces']])
    t.nontrivial(n > 0 and len(s['forces']) > 0)


@clause(num_case, quick=400, shards=2, rule='hysteretic force committed')
def committed_state(c, t):
    """update_force_history stores the evaluated state of every hysteretic element: Jenkins/Iwan forces continue from
    the reference sliders at the committed displacements, and re-evaluating the committed point repeats its force."""
    s = c['s']
    N = s['N']
    vs = systems.build(s)
    vs.init_force_history()
    ms = [ref.sliders_of(f) if f['type'] in ref.HYST1 else None for f in s['forces']]
    us = [arr(o['u']) for o in c['ops'] if 'u' in o] + [1.5 * arr(c['x0'])]
    for i, u in enumerate(us):
        want, sc = arr(s['K']) @ u, np.abs(arr(s['K'])).max() * np.abs(u).max() * N
        commit = []
        for f, m in zip(s['forces'], ms):
            Q, T = arr(f['Q']), arr(f['T'])
            if m is None:
                l = ref.law_inst(f, (Q @ u)[None, :], np.zeros((1, Q.shape[0])))[0]
            else:
                q, _ = m.trial((Q @ u)[0])
                commit.append((m, (Q @ u)[0], q))
                l = np.array([q.sum()])
            want = want + T @ l
            sc += np.abs(T).max() * np.abs(l).max()
        R = vs.static_res(u, np.zeros(N))[0]
        t.close(R, want, 'static residual after %d committed states' % i, rtol=1e-10, atol=1e-13, scale=sc)
        vs.update_force_history(u)
        for m, a, q in commit:
            m.commit(a, q)
        t.close(vs.static_res(u, np.zeros(N))[0], want, 'force at the committed point', rtol=1e-10, atol=1e-13,
                scale=sc)
    t.label(*[f['type'] for f in s['forces']])
    t.nontrivial(any(m is not None for m in ms) and len(us) > 1)


@clause(num_case, quick=300, rule='proportional coefficients or matrix given')
def construction(c, t):
    """Damping at construction: ab wins over C, neither gives none; inputs unchanged."""
    from tmdsimpy.vibration_system import VibrationSystem
    s = c['s']
    M, K = arr(s['M']), arr(s['K'])
    Cm = arr(c['s'].get('C', (0.1 * M).tolist()))
    ab = s.get('ab')
    M0, K0, C0 = M.copy(), K.copy(), Cm.copy()
    kw = {}
    if c['seed'] % 2:
        kw['C'] = Cm
    if ab is not None:
        kw['ab'] = ab
    vs = VibrationSystem(M, K, **kw)
    want = ab[0] * M + ab[1] * K if ab is not None else Cm if 'C' in kw else 0 * M
    t.close(np.array(vs.C), want, 'damping matrix', rtol=1e-14, atol=1e-16)
    h, U = np.array(c['h']), np.linspace(-1, 1, ref.nhc(c['h']) * s['N'])
    t.close(vs.hbm_res(np.hstack((U, 1.3)), 0 * U, h)[0], ref.lin_res(M, want, K, U, 1.3, c['h']),
            'residual', rtol=1e-11, atol=1e-12)
    t.same(M, M0, 'M modified')
    t.same(K, K0, 'K modified')
    t.same(Cm, C0, 'C modified')
    t.nontrivial(bool(kw))
