"""C07 Hysteretic harmonic forces are steady-state slider cycles, in all implementations."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.core import clause, arr
from pbt.fd import jitter


def trace(spec, u, u0, cycles):
    """(force of each cycle, closeness to a stick/slip tie, slipped?, stuck?)"""
    m = ref.sliders_of(spec)
    m.reset(u0)
    F = np.zeros((cycles, len(u)))
    tie, slip, stuck = np.inf, False, False
    for c in range(cycles):
        for i, ui in enumerate(u):
            q, pred = m.trial(ui)
            g = np.abs(np.abs(pred) - m.f) / (m.f + 1e-300)
            tie = min(tie, float(g.min()))
            slip, stuck = slip or bool(np.any(np.abs(pred) > m.f)), stuck or bool(np.any(np.abs(pred) < m.f))
            m.commit(ui, q)
            F[c, i] = q.sum()
    return F, tie, slip, stuck


def early_stop(F):
    """The documented convergence test may legitimately end after one cycle when its final force is (relatively) the
    initial one, i.e. zero: such histories are outside of the comparison."""
    return abs(F[0, -1]) < 1e-8 and np.max(np.abs(F[0] - F[1])) > 0


@st.composite
def case(draw, types=forces.HYST, jax=False, maxh=5):
    wide = not jax and draw(st.integers(0, 7)) == 0
    N = draw(st.integers(1, 3) if not wide else st.integers(1, 7))
    s = draw(forces.spec(types, N))
    if jax:
        h, Nt = draw(st.sampled_from([([0, 1], 16), ([0, 1, 2, 5], 32), ([1, 3], 32)]))
    else:
        h = draw(gen.harmonics(maxh, max_n=4) if not wide else gen.harmonics(14, max_n=7))
        Nt = draw(gen.nt_for(h, choices=(8, 16, 20, 32, 64) if not wide else (64, 100, 128, 200)))
    # displacements relative to the slip displacement so that stuck, micro-slip and gross slip all occur
    p = s['p']
    amp = draw(st.sampled_from([0.3, 1.0, 3.0, 10.0])) * p['Fs'] / p['kt']
    return dict(N=N, s=s, h=h, Nt=Nt, w=draw(gen.num(0.2, 3)), U=draw(gen.vec(ref.nhc(h) * N, 1.0)), amp=amp,
                seed=draw(st.integers(0, 9999)))


def unpack(c):
    s = c['s']
    U = c['amp'] * jitter(c['U'], c['seed'], 1e-3)
    Ul = (ref.split(U, c['N'], c['h']) @ arr(s['Q']).T)[:, 0]
    u = ref.series(c['h'], Ul[:, None], c['Nt'])[:, 0]
    return s, U, Ul, u


def scale(s, F):
    return (np.max(np.abs(F)) + s['p']['Fs'] * 1e-3) * np.abs(arr(s['T'])).max()


def common(c, t, slip, stuck, F):
    t.label(c['s']['type'], 'slip' if slip else 'no-slip', 'h0' if c['h'][0] == 0 else 'no-h0')
    t.nontrivial(slip and stuck and np.abs(F).max() > 0)


@clause(case, quick=1200, shards=4, rule='slip and stick within the cycle')
def two_cycles(c, t):
    """Harmonic force = projection of the second cycle of the reference sliders."""
    s, U, Ul, u = unpack(c)
    F, tie, slip, stuck = trace(s, u, Ul[0], 2)
    if early_stop(F):
        t.skip('first cycle ends at zero force')
    f = forces.build(s)
    U1 = U.copy()
    h = np.array(c['h'])
    out = f.aft(U1, c['w'], h, Nt=c['Nt'])
    t.same(U1, U, 'U modified')
    t.same(h, np.array(c['h']), 'h modified')
    want = np.outer(ref.project(c['h'], F[1]), arr(s['T'])[:, 0]).reshape(-1)
    t.close(out[0], want, 'harmonic force', rtol=1e-9, atol=1e-14, scale=scale(s, F))
    t.close(out[2], 0 * want, 'frequency derivative', rtol=0)
    t.equal(np.array(f.aft(U1, 2 * c['w'], h, Nt=c['Nt'])[0]), np.array(out[0]), 'repeatable and rate independent')
    common(c, t, slip, stuck, F)


@clause(case, quick=400, shards=2, rule='slip and stick within the cycle')
def steady(c, t):
    """Further repetitions of the cycle do not change the result (it is the steady state)."""
    s, U, Ul, u = unpack(c)
    F, tie, slip, stuck = trace(s, u, Ul[0], 3)
    if early_stop(F):
        t.skip('first cycle ends at zero force')
    f = forces.build(s)
    h = np.array(c['h'])
    a = f.aft(U, c['w'], h, Nt=c['Nt'])[0]
    b = f.aft(U, c['w'], h, Nt=c['Nt'], max_repeats=4, atol=-1, rtol=-1)[0]
    t.close(b, a, 'more repeats', rtol=1e-9, atol=1e-14, scale=scale(s, F))
    common(c, t, slip, stuck, F)


@clause(lambda: case(types=('jenkins', 'iwan4')), quick=900, shards=4, rule='slip and stick within the cycle')
def vector_equals_serial(c, t):
    s, U, Ul, u = unpack(c)
    F, tie, slip, stuck = trace(s, u, Ul[0], 2)
    if early_stop(F):
        t.skip('first cycle ends at zero force')
    h = np.array(c['h'])
    A = forces.build(s).aft(U, c['w'], h, Nt=c['Nt'])
    B = forces.build(dict(s, type='vec' + s['type'])).aft(U, c['w'], h, Nt=c['Nt'])
    sc = scale(s, F)
    t.close(B[0], A[0], 'vectorised force', rtol=1e-9, atol=1e-14, scale=sc)
    if tie > 1e-9:
        ks = np.sum(ref.sliders_of(s).k) * np.abs(arr(s['T'])).max() * np.abs(arr(s['Q'])).max()
        t.close(B[1], A[1], 'vectorised Jacobian', rtol=1e-9, atol=1e-14, scale=ks)
        t.close(B[2], A[2], 'vectorised dF/dw', rtol=0)
    common(c, t, slip, stuck, F)


@clause(lambda: case(types=forces.JAXH, jax=True), quick=500, shards=2, rule='slip and stick within the cycle')
def jax_equals_model(c, t):
    s, U, Ul, u = unpack(c)
    u0 = s['p']['u0']
    F, tie, slip, stuck = trace(s, u, Ul[0] if u0 is None else u0, 2)
    h = np.array(c['h'])
    out = forces.build(s).aft(U, c['w'], h, Nt=c['Nt'])
    T, Q = arr(s['T']), arr(s['Q'])
    want = np.outer(ref.project(c['h'], F[1]), T[:, 0]).reshape(-1)
    sc = scale(s, F)
    t.close(out[0], want, 'JAX harmonic force', rtol=1e-9, atol=1e-14, scale=sc)
    t.close(out[2], 0 * want, 'frequency derivative', rtol=0, atol=1e-14)
    if u0 is None and not early_stop(F):
        for ty in ('jenkins', 'vecjenkins'):
            B = forces.build(dict(s, type=ty)).aft(U, c['w'], h, Nt=c['Nt'])
            t.close(B[0], out[0], 'JAX vs %s force' % ty, rtol=1e-9, atol=1e-14, scale=sc)
            if tie > 1e-9:
                t.close(B[1], out[1], 'JAX vs %s Jacobian' % ty, rtol=1e-9, atol=1e-14,
                        scale=s['p']['kt'] * np.abs(T).max() * np.abs(Q).max())
        t.label('u0None')
    common(c, t, slip, stuck, F)


@clause(lambda: case(types=('jaxjenkins',), jax=True), quick=300, rule='slip and stick within the cycle')
def jax_prestress(c, t):
    """Prestress mode of the JAX elements: no force until restored, then exactly the original."""
    s, U, Ul, u = unpack(c)
    f = forces.build(s)
    h = np.array(c['h'])
    A = f.aft(U, c['w'], h, Nt=c['Nt'])
    f.set_prestress_mu()
    t.close(f.aft(U, c['w'], h, Nt=c['Nt'])[0], 0 * U, 'force in prestress mode', rtol=0, atol=1e-15)
    f.reset_real_mu()
    t.equal(np.array(f.aft(U, c['w'], h, Nt=c['Nt'])[0]), np.array(A[0]), 'restored force')
    F, tie, slip, stuck = trace(s, u, Ul[0], 2)
    common(c, t, slip, stuck, F)


@st.composite
def pre_case(draw):
    c = draw(case(types=('jenkins', 'vecjenkins')))
    c['ops'] = draw(st.lists(st.sampled_from(['pre', 'restore']), min_size=1, max_size=4))
    return c


@clause(pre_case, quick=500, shards=2, rule='slip and stick within the cycle, prestress mode entered')
def prestress_cycles(c, t):
    """Periodic forces with the friction of the current mode: none in prestress mode, the original ones after restoring;
    value and derivatives."""
    s, U, Ul, u = unpack(c)
    F, tie, slip, stuck = trace(s, u, Ul[0], 2)
    if early_stop(F):
        t.skip('first cycle ends at zero force')
    h = np.array(c['h'])
    f = forces.build(s)
    want = forces.build(s).aft(U, c['w'], h, Nt=c['Nt'])
    ks = np.abs(np.array(want[1])).max() + ref.sliders_of(s).k.sum() * np.abs(arr(s['T'])).max() * np.abs(arr(s['Q'])).max()
    for k in c['ops']:
        (f.set_prestress_mu if k == 'pre' else f.reset_real_mu)()
        out = f.aft(U, c['w'], h, Nt=c['Nt'])
        if k == 'pre':
            t.close(out[0], 0 * U, 'force in prestress mode', rtol=0, atol=1e-14)
            continue
        t.close(out[0], want[0], 'restored force', rtol=1e-12, scale=scale(s, F))
        if tie > 1e-9:
            t.close(out[1], want[1], 'restored derivative', rtol=1e-12, scale=ks)
    t.label(s['type'], 'slip' if slip else 'no-slip')
    t.nontrivial('pre' in c['ops'] and slip and stuck)
