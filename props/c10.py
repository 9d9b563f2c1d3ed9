"""C10 Harmonic forces are covariant, additive and pure."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.fd import jitter


def unpack(c):
    return c['s'], systems.motion(c)


def labels(c, t):
    t.label(*[f['type'] for f in c['s']['forces']])


def _sum(c, t):
    s, U = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    h = np.array(c['h'])
    parts = [forces.build(f).aft(U.copy(), c['w'], h, Nt=c['Nt'])[:3] for f in s['forces']]
    n = U.size
    want = [np.zeros(n), np.zeros((n, n)), np.zeros(n)]
    for p in parts:
        for i in range(3):
            want[i] = want[i] + np.array(p[i])
    sc = [sum(np.abs(np.array(p[i])).max(initial=0) for p in parts) for i in range(3)]
    order = np.random.RandomState(c['seed']).permutation(len(parts))
    objs = [forces.build(f) for f in s['forces']]
    for o, name in ((range(len(parts)), 'in order'), (order, 'permuted')):
        vs = systems.build(s, [objs[i] for i in o])
        t.ok(len(vs.nonlinear_forces) == len(objs), 'number of forces kept by the system')
        for rep in range(2):
            U1, h1 = U.copy(), h.copy()
            out = vs.total_aft(U1, c['w'], h1, Nt=c['Nt'])
            t.same(U1, U, 'U modified')
            t.same(h1, h, 'h modified')
            for i, nm in enumerate(('force', 'dF/dU', 'dF/dw')):
                t.close(np.array(out[i]), want[i], 'total %s %s (call %d)' % (nm, name, rep), rtol=1e-12, atol=1e-13,
                        scale=sc[i])
    if objs:        # the same element attached twice counts twice
        k = int(order[0])
        vs2 = systems.build(s, objs + [objs[k]])
        out = vs2.total_aft(U.copy(), c['w'], h, Nt=c['Nt'])
        for i, nm in enumerate(('force', 'dF/dU', 'dF/dw')):
            t.close(np.array(out[i]), want[i] + np.array(parts[k][i]), 'total %s with one element attached twice' % nm,
                    rtol=1e-12, atol=1e-13, scale=2 * sc[i])
    t.kept(lambda V: vs.total_aft(V, c['w'], h, Nt=c['Nt'])[:3], U, 1.1 * U + .01, 'total force')
    if systems.grad_flag_ok(s):
        o = vs.total_aft(U, c['w'], h, Nt=c['Nt'], calc_grad=False)
        t.ok(len(o) == 1, 'calc_grad=False returns one value')
        t.close(np.array(o[0]), want[0], 'total force without gradient', rtol=1e-12, atol=1e-13, scale=sc[0])
        t.label('no-grad')
    labels(c, t)
    t.nontrivial(sum(np.abs(np.array(p[0])).max() > 0 for p in parts) >= 2)


@clause(lambda: systems.hb_case(nf=(0, 4)), quick=700, shards=3, rule='two or more non-zero forces')
def additive(c, t):
    """Total force and Jacobians are the sum over fresh single elements in any order; repeatable; pure."""
    _sum(c, t)


@clause(lambda: systems.hb_jax_case(types=systems.TWICE + ('cubic', 'jenkins'), nf=(2, 3)), quick=120, shards=2,
        rule='two or more non-zero forces')
def additive_jax(c, t):
    _sum(c, t)


@clause(lambda: systems.hb_case(nf=(1, 4)), quick=600, shards=2, rule='non-zero force')
def sum_of_models(c, t):
    """Total force equals the sum of the reference harmonic forces."""
    s, U = unpack(c)
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    F, sc = systems.fnl(s, U, c['w'], c['h'], c['Nt'])
    out = systems.build(s).total_aft(U, c['w'], np.array(c['h']), Nt=c['Nt'])
    t.close(out[0], F, 'total force', rtol=1e-9, atol=1e-13, scale=sc)
    labels(c, t)
    t.nontrivial(np.abs(F).max() > 0)


@st.composite
def shift_case(draw, base):
    c = draw(base)
    c['m'] = draw(st.integers(1, c['Nt'] - 1))
    return c


def _shift(c, t):
    s, U = unpack(c)
    th = 2 * np.pi * c['m'] / c['Nt']
    X = ref.split(U, s['N'], c['h'])
    Us = ref.shift(X, c['h'], th).reshape(-1)
    for u in (U, Us):
        if systems.early(s, u, c['h'], c['Nt']):
            t.skip('convergence test at zero force')
    h = np.array(c['h'])
    vs = systems.build(s)
    F = ref.split(vs.total_aft(U, c['w'], h, Nt=c['Nt'])[0], s['N'], c['h'])
    G = ref.split(vs.total_aft(Us, c['w'], h, Nt=c['Nt'])[0], s['N'], c['h'])
    sc = systems.fnl(s, U, c['w'], c['h'], c['Nt'])[1]
    t.close(G, ref.shift(F, c['h'], th), 'force of the shifted motion', rtol=1e-8, atol=1e-12, scale=sc)
    labels(c, t)
    t.nontrivial(np.abs(G - F).max() > 1e-6 * sc)


@clause(lambda: shift_case(systems.hb_case(nf=(1, 3))), quick=800, shards=3,
        rule='the shift changes the harmonic force')
def time_shift(c, t):
    """A shift by whole samples only rotates the harmonics of the force (all sliders reach the same steady state)."""
    _shift(c, t)


@clause(lambda: shift_case(systems.hb_jax_case()), quick=150, shards=2, rule='the shift changes the harmonic force')
def time_shift_jax(c, t):
    _shift(c, t)


@st.composite
def pad_case(draw):
    c = draw(systems.hb_case(nf=(1, 3)))
    extra = draw(st.sets(st.integers(0, 7), min_size=1, max_size=3))
    c['h2'] = sorted(set(c['h']) | extra)
    c['Nt'] = draw(gen.nt_for(c['h2'], choices=(20, 32, 64)))
    return c


def rows(h, sub):
    """Row indices of the components of `sub` within h."""
    out, r = [], 0
    for k in h:
        w = 2 if k else 1
        if k in sub:
            out += list(range(r, r + w))
        r += w
    return out


@clause(pad_case, quick=600, shards=2, rule='added harmonics and a non-zero force')
def padding(c, t):
    """Unused harmonics with zero coefficients do not change the shared ones."""
    s, U = unpack(c)
    r = rows(c['h2'], c['h'])
    X2 = np.zeros((ref.nhc(c['h2']), s['N']))
    X2[r] = ref.split(U, s['N'], c['h'])
    U2 = X2.reshape(-1)
    if systems.early(s, U, c['h'], c['Nt']) or systems.early(s, U2, c['h2'], c['Nt']):
        t.skip('convergence test at zero force')
    F = ref.split(systems.build(s).total_aft(U, c['w'], np.array(c['h']), Nt=c['Nt'])[0], s['N'], c['h'])
    F2 = ref.split(systems.build(s).total_aft(U2, c['w'], np.array(c['h2']), Nt=c['Nt'])[0], s['N'], c['h2'])
    sc = systems.fnl(s, U, c['w'], c['h'], c['Nt'])[1]
    t.close(F2[r], F, 'shared harmonics', rtol=1e-9, atol=1e-12, scale=sc)
    labels(c, t)
    t.nontrivial(len(c['h2']) > len(c['h']) and np.abs(F).max() > 0)


def degree(f):
    if f['type'] == 'genpoly':
        return max(sum(q) for q in f['p']['q'])
    return {'cubic': 3, 'quintic': 5, 'cubdamp': 3}[f['type']]


@clause(lambda: systems.hb_case(types=forces.SMOOTH, nf=(1, 3), maxh=4), quick=500, shards=2, rule='non-zero force')
def refinement(c, t):
    """Any sample count resolving the polynomial force gives the same coefficients."""
    s, U = unpack(c)
    d = max(degree(f) for f in s['forces'])
    need = max((d + 1) * max(c['h']) + 1, 2 * max(c['h']) + 2)
    N1 = need + need % 2
    vs = systems.build(s)
    h = np.array(c['h'])
    A = vs.total_aft(U, c['w'], h, Nt=N1)
    sc = systems.fnl(s, U, c['w'], c['h'], N1)[1]
    for N2 in (N1 + 2 + 2 * (c['seed'] % 7), 4 * N1):
        B = vs.total_aft(U, c['w'], h, Nt=N2)
        t.close(B[0], A[0], 'force with %d and %d samples' % (N2, N1), rtol=1e-9, atol=1e-12, scale=sc)
        t.close(B[1], A[1], 'Jacobian with %d and %d samples' % (N2, N1), rtol=1e-9,
                atol=1e-9 * (np.abs(A[1]).max() + sc))
    labels(c, t)
    t.nontrivial(np.abs(A[0]).max() > 0)


def forces_compiled(s):
    return any(f['type'] in systems.TWICE for f in s['forces'])


@st.composite
def seq_case(draw, base):
    c = draw(base)
    n, N = len(c['U']), c['s']['N']
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(['aft', 'aft', 'static', 'commit', 'init', 'res', 'res', 'add', 'damp']))
        o = dict(op=k)
        if k in ('aft', 'res'):          # None: the final point, frequency, number of samples
            o['U'] = draw(st.one_of(st.none(), gen.vec(n, 2.0)))
            o['w'] = draw(st.one_of(st.none(), gen.num(0.3, 2.5)))
            o['more'] = draw(st.sampled_from([0, 0, 0, 8]))
            o['h'] = draw(st.sampled_from(['same', 'same', 'up', 'drop']))   # NumPy classes only
        elif k == 'damp':
            o['ab'] = [draw(gen.num(0, 0.3, 60)), draw(gen.num(0, 0.3, 60))]
        elif k in ('static', 'commit'):
            o['u'] = draw(gen.vec(N, 2.0))
        ops.append(o)
    c['ops'] = ops
    c['n0'] = draw(st.integers(0, len(c['s']['forces'])))
    return c


def _seq(c, t):
    s, U = unpack(c)
    h = np.array(c['h'])
    if systems.early(s, U, c['h'], c['Nt']):
        t.skip('convergence test at zero force')
    X = np.hstack((U, c['w']))
    fresh = systems.build(s)
    want = [np.array(x).copy() for x in fresh.total_aft(U, c['w'], h, Nt=c['Nt'])]
    todo = [forces.build(f) for f in s['forces']]
    vs = systems.build(s, [todo.pop(0) for _ in range(c['n0'])])

    def add():
        if todo:
            f = todo.pop(0)
            if f.nl_force_type() == 1:
                f.init_history()
            vs.add_nl_force(f)
    vs.init_force_history()
    for o in c['ops']:
        if o['op'] in ('aft', 'res'):
            V = U if o['U'] is None else arr(o['U'])
            w = c['w'] if o['w'] is None else o['w']
            Nt = c['Nt'] + (0 if forces_compiled(s) else o['more'])
            h2, Fl = h, arr(c['Fl'])
            if not forces_compiled(s) and o['h'] == 'up':            # as many harmonics, but other ones
                h2 = h + (h > 0)
                Nt += 0 if Nt > 2 * h2.max() + 1 else 8
            elif not forces_compiled(s) and o['h'] == 'drop' and h.size > 2:
                h2 = h[:-1]
                V, Fl = V[:-2 * s['N']], Fl[:-2 * s['N']]
        if o['op'] == 'aft':
            vs.total_aft(V, w, h2, Nt=Nt)
        elif o['op'] == 'res':
            vs.hbm_res(np.hstack((V, w)), Fl, h2, Nt=Nt)
        elif o['op'] == 'add':
            add()
        elif o['op'] == 'damp':
            vs.set_new_C(ab=o['ab'])
            fresh.set_new_C(ab=o['ab'])
        elif o['op'] == 'init':
            vs.init_force_history()
        elif o['op'] == 'static':
            vs.static_res(arr(o['u']), np.zeros(s['N']))
        else:
            vs.update_force_history(arr(o['u']))
    while todo:
        add()
    Fl = arr(c['Fl'])
    res = fresh.hbm_res(X, Fl, h, Nt=c['Nt'])
    for what, got, ref_ in (('', vs.total_aft(U, c['w'], h, Nt=c['Nt']), want),
                            ('residual: ', vs.hbm_res(X, Fl, h, Nt=c['Nt']), res)):
        for i, nm in enumerate(('force', 'dF/dU', 'dF/dw')):
            w = np.array(ref_[i])
            t.close(np.array(got[i]), w, what + nm + ' after other evaluations', rtol=1e-11, atol=1e-12,
                    scale=np.abs(w).max() + np.abs(want[i]).max())
    labels(c, t)
    t.nontrivial(np.abs(want[0]).max() > 0 and len(set(o['op'] for o in c['ops'])) > 1)


@clause(lambda: seq_case(systems.hb_case(nf=(1, 3))), quick=500, shards=2,
        rule='non-zero force, several kinds of operations before')
def history_free(c, t):
    """Harmonic forces do not depend on any earlier static or harmonic evaluation."""
    _seq(c, t)


@clause(lambda: seq_case(systems.hb_jax_case(types=forces.ELDRY)), quick=80, shards=2,
        rule='non-zero force, several kinds of operations before')
def history_free_jax(c, t):
    _seq(c, t)
