"""C28 Exported local forces are the forces used in the harmonic solution."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces, systems
from pbt.core import clause, arr
from pbt.rough import Rough


def local_ref(s, h, Ul, w, Nt, start):
    """(reference local history, comparable).  start: global displacement given to set_aft_initialize, or None"""
    Q = arr(s['Q'])
    if s['type'] in forces.ROUGH:
        u0 = s['p']['u0']
        u0 = np.concatenate((arr(u0), [0.0]))[:3] if isinstance(u0, list) else np.array([u0, u0, 0.0])
        if start is not None:
            u0 = Q @ start
        m = Rough(s)
        ft, _ = m.cycle(ref.series(h, Ul, Nt), u0)
        return ft, m.near > 1e-9
    if start is not None and s['type'] in forces.ELDRY:
        s = dict(s, p=dict(s['p'], u0=(Q @ start).tolist()))
    return ref.local_hist(s, h, Ul, w, Nt), True


def judge(c, t, rtol):
    from tmdsimpy.postprocess import harmonic as hp
    s, N, h, Nt, w = c['s'], c['s']['N'], c['h'], c['Nt'], c['w']
    hh, U = np.array(h), arr(c['U']) * c['amp']
    vs = systems.warm(systems.build(s), s, c)
    start = None
    if c.get('start') is not None:
        start = arr(c['start'])
        vs.set_aft_initialize(start)
    if c.get('prior'):                       # something else evaluated in between must not matter
        vs.total_aft(U[::-1].copy(), w * 1.3, hh, Nt=Nt)
    U0 = U.copy()
    kw = {} if c.get('tol') is None else dict(aft_tol=c['tol'])
    out = hp.local_harmonic_forces(vs, U, w, hh, Nt=Nt, **kw)
    t.same(U, U0, 'solution modified'); t.same(hh, np.array(h), 'harmonics modified')
    t.ok(len(out) == len(s['forces']), 'one entry per force', got=len(out))
    n = ref.nhc(h)
    total, want_total, sc = np.zeros(n * N), np.zeros(n * N), 0.0
    moving = False
    exact = True
    for i, (f, o) in enumerate(zip(s['forces'], out)):
        t.ok(len(o) == 4, 'entry')
        Uh, ut, Fh, ft = (np.asarray(a, dtype=float) for a in o)
        Q, T = arr(f['Q']), arr(f['T'])
        nn = Q.shape[0]
        Ul = ref.split(U0, N, h) @ Q.T
        usc = np.abs(Ul).max() + 1e-300
        t.close(Uh, Ul, 'local harmonic displacements of force %d (%s)' % (i, f['type']), rtol=1e-11, scale=usc * 3)
        t.close(ut, ref.series(h, Ul, Nt), 'local displacement history', rtol=1e-11, scale=usc * n)
        t.ok(ft.shape == (Nt, nn), 'shape of the force history', got=ft.shape)
        t.ok(Fh.shape == (n, nn), 'shape of the harmonic forces', got=Fh.shape)
        fsc = np.abs(ft).max() + 1e-300
        t.close(Fh, ref.project(h, ft), 'harmonic forces against their history (%s)' % f['type'], rtol=1e-11, scale=fsc)
        want, ok = local_ref(f, h, Ul, w, Nt, start)
        exact &= ok
        # without harmonic 0, the mean force of a never slipping element depends on an arbitrary start
        if ok and not (f['type'] in forces.HYST and h[0] != 0):
            extra = 0.01 * f['p']['kt'] * usc if f['type'] in forces.HYST + forces.ELDRY else 0.0
            t.close(ft, want, 'force history (%s)' % f['type'], rtol=rtol, atol=1e-13, scale=np.abs(want).max() + extra)
        if ok:
            t.close(Fh, ref.project(h, want), 'harmonic forces (%s)' % f['type'], rtol=rtol, atol=1e-13,
                    scale=np.abs(want).max() + np.abs(ft).max() + (f['p'].get('kt', 0) * usc if isinstance(f['p'].get('kt'), float) else 0))
        total += (Fh @ T.T).reshape(-1)
        sc += np.abs(ft).max() * (np.abs(T).sum(1).max() + 1e-12)
        moving |= bool(np.ptp(ft) > 1e-9)
        t.label(f['type'])
    F = np.asarray(vs.total_aft(U0.copy(), w, hh, Nt=Nt)[0], dtype=float)
    t.close(total, F, 'sum of the exported forces against the total harmonic force', rtol=rtol, atol=1e-13, scale=sc)
    t.nontrivial(len(s['forces']) >= 1 and moving)
    return out


@st.composite
def mixed(draw):
    c = draw(systems.hb_case(nf=(1, 4), amp=(0.1, 1.0, 3.0)))
    c['tol'] = draw(st.sampled_from([None, 1e-7, 1e-10]))
    c['prior'] = draw(st.booleans())
    return c


@clause(mixed, quick=800, shards=2, rule='at least one force that varies over the cycle')
def numpy_forces(c, t):
    if systems.early(c['s'], arr(c['U']) * c['amp'], c['h'], c['Nt']):
        t.skip('convergence of cycles decided by the tolerance')
    judge(c, t, 1e-10)


@st.composite
def fric(draw):
    N = draw(st.integers(1, 3))
    s = draw(systems.system(('cubic',), N=N, nf=(0, 0)))
    rough = draw(st.integers(0, 2)) == 0
    s['forces'] = [draw(forces.spec(forces.ROUGH if rough else forces.ELDRY, N))]
    for f in s['forces']:
        if f['type'] in forces.ELDRY and len(f['Q']) > 3:
            f['Q'], f['T'] = f['Q'][:len(f['Q']) // 2], [r[:len(f['Q']) // 2] for r in f['T']]
            if isinstance(f['p']['u0'], list):
                f['p']['u0'] = f['p']['u0'][:len(f['Q'])]
    for _ in range(draw(st.integers(0, 2))):
        s['forces'].append(draw(forces.spec(systems.ALLFREQ, N)))
    if draw(st.booleans()):
        s['forces'] = s['forces'][::-1]
    h, Nt = draw(st.sampled_from([([0, 1], 16), ([0, 1, 5], 32), ([1, 4], 32)] if not rough else [([0, 1], 16), ([0, 1, 4], 32)]))
    U = np.array(draw(gen.mat(ref.nhc(h), N, 1.0)))
    return dict(s=s, h=h, Nt=Nt, w=draw(gen.num(0.3, 2.5)), U=U.reshape(-1).tolist(), amp=draw(st.sampled_from([0.3, 1.0])),
                start=draw(st.one_of(st.none(), gen.vec(N, 1.0))), prior=draw(st.booleans()), tol=None)


@clause(fric, quick=420, shards=4, rule='at least one force that varies over the cycle')
def frictional_contact(c, t):
    """Dry friction and rough contact, alone and mixed, with each way of choosing the initial slider position."""
    if systems.early(c['s'], arr(c['U']) * c['amp'], c['h'], c['Nt']):
        t.skip('convergence of cycles decided by the tolerance')
    for f in c['s']['forces']:
        if f['type'] in forces.ELDRY + forces.ROUGH:
            u0 = f['p']['u0']
            t.label('start: set_aft_initialize' if c['start'] is not None else 'start: None' if u0 is None else
                    'start: vector' if isinstance(u0, list) else 'start: scalar')
    judge(c, t, 1e-7 if any(f['type'] in forces.ROUGH for f in c['s']['forces']) else 1e-9)
