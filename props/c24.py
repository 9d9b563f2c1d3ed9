"""C24 EPMC reduced-order model reproduces single-mode forced responses."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, rom
from pbt.core import clause, arr


@st.composite
def force_case(draw):
    b = draw(rom.backbone(linear=draw(st.integers(0, 3)) == 0))
    n = len(b['base'])
    c = dict(b=b, F=draw(gen.vec(2 * b['N'], 1.0)), rest=draw(gen.vec(n, 1.0)), fm=draw(gen.logn(0.01, 30, 60)),
             opt=draw(st.sampled_from(['none', 'none', 'w', 'wv', 'z', 'zv', 'wvzv', 'phi', 'phiv'])),
             wv=draw(gen.vec(b['M'], 0.5)), zv=draw(gen.vec(b['M'], 0.5)), ph=draw(gen.mat(2, b['M'], 1.0)),
             order=draw(st.one_of(st.none(), st.none(), st.permutations(range(b['M'])), st.just(list(range(b['M']))[::-1]))))
    return c


def overrides(c, bb):
    M = len(bb)
    kw = {}
    w, xi = bb[:, -3], bb[:, -2]
    if 'w' in c['opt']:
        v = 1.5 * (1 + arr(c['wv']))
        kw['w'] = v if 'wv' in c['opt'] else float(v[0])
        w = kw['w'] * np.ones(M)
    z = xi / (2 * w)
    if 'z' in c['opt']:
        v = 0.08 * (1 + arr(c['zv']))
        kw['zeta'] = v if 'zv' in c['opt'] else float(v[0])
        z = kw['zeta'] * np.ones(M)
    return kw, w, z


@clause(force_case, quick=2500, shards=2, rule='at least two points returned')
def constant_force_equation(c, t):
    """Every returned point is a backbone point, scaled by its amplitude and delayed by the modal phase, that satisfies the
    complex single-mode equation at the returned frequency; every amplitude with a real positive frequency is returned."""
    from tmdsimpy.roms import epmc
    b = c['b']
    N, h, bb = b['N'], b['h'], rom.rows(b)
    if c['order']:                       # a backbone traced downwards, or points collected in any order
        bb = bb[c['order']]
        t.label('unsorted')
    kw, w, z = overrides(c, bb)
    q = 10 ** bb[:, -1]
    phi = rom.comp(bb, N, h, 1)
    F = arr(c['F'][:N]) - 1j * arr(c['F'][N:])
    f0 = 2 * 0.05 * w[0] ** 2 * np.median(q) * c['fm']
    F = F * f0
    if 'phi' in c['opt']:
        p = arr(c['ph']) * f0
        if c['opt'] == 'phi':
            p = p[:, :1] * np.ones((2, b['M']))
            kw.update(phiH_Fl_real=float(p[0, 0]), phiH_Fl_imag=float(p[1, 0]))
        else:
            kw.update(phiH_Fl_real=p[0].copy(), phiH_Fl_imag=p[1].copy())
        pF = p[0] + 1j * p[1]
    else:
        Fl = arr(c['rest']) * f0                                 # only the first harmonic counts
        rom.put(Fl, N, h, 1, F)
        kw['Fl'] = Fl
        pF = phi.conj() @ F
    if np.any(np.abs(pF) < 1e-6 * f0):
        t.skip('modal force vanishes')
    want = [rom.roots(w[m], z[m], q[m], abs(pF[m])) for m in range(b['M'])]
    if any(r is None for r in want):
        t.skip('boundary of a real solution')
    bb0 = bb.copy()
    kw0 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    ha = np.array(h)
    X, amp, th = epmc.constant_force(bb, N, ha, **kw)
    t.same(bb, bb0, 'backbone modified')
    for k in kw:
        t.same(kw[k], kw0[k], k + ' modified')
    n = len(b['base'])
    cnt = sum(len(r) for r in want)
    t.ok(X.shape == (cnt, n + 1), 'shape of the result', got=X.shape, want=(cnt, n + 1))
    t.ok(amp.shape == (cnt,) and th.shape == (cnt,), 'shape of amplitude / phase')
    left = {(m, s): Om for m, r in enumerate(want) for Om, s in r}
    for j in range(cnt):
        m = int(np.argmin(np.abs(np.log10(amp[j]) - bb[:, -1])))
        t.close(amp[j], q[m], 'modal amplitude of row %d' % j, rtol=1e-10, shape=False)
        Om = X[j, -1]
        key = min(((abs(v - Om), k) for k, v in left.items() if k[0] == m), default=None)
        t.ok(key is not None, 'a frequency is returned twice', Om=Om, q=q[m])
        D = rom.dyn(w[m], z[m], Om)
        sc = w[m] ** 2 + Om ** 2
        # the single-mode equation D q exp(-i th) = phi^H F
        t.ok(abs(abs(D) ** 2 * q[m] ** 2 - abs(pF[m]) ** 2) <= 1e-9 * abs(pF[m]) ** 2 + 1e-12 * (sc * q[m]) ** 2,
             'amplitude equation at row %d' % j, lhs=abs(D) * q[m], rhs=abs(pF[m]))
        ph = D * np.exp(-1j * th[j]) * pF[m].conj()
        t.ok(abs(ph.imag) <= 1e-8 * abs(ph) and ph.real > 0, 'phase equation at row %d' % j, th=th[j],
             want=np.angle(D * pF[m].conj()))
        t.ok(key[0] <= 1e-6 * sc ** 0.5, 'frequency of row %d' % j, got=Om, want=left[key[1]])
        del left[key[1]]
        U = bb[m, :n].copy()
        U[(N if 0 in h else 0):] *= q[m]
        t.close(X[j, :n], rom.delayed(U, N, h, th[j]), 'displacements of row %d' % j, rtol=1e-9)
    t.ok(not left, 'missing frequencies', missing=list(left.values())[:4])
    if b['linear'] and not c['order'] and not any(k in c['opt'] for k in ('v', )) and 'phi' != c['opt'][:3]:
        t.ok(np.all(np.diff(X[:, -1]) >= -1e-7 * w[0]), 'frequencies of a constant backbone not increasing', Om=X[:, -1])
    t.label(c['opt'], 'linear%d' % b['linear'])
    if any(len(r) == 0 for r in want):
        t.label('some amplitudes unreachable')
    if any(len(r) == 1 for r in want):
        t.label('only one branch')
    t.nontrivial(cnt >= 2)


@st.composite
def lin_case(draw):
    N = draw(st.integers(1, 4))
    return dict(N=N, M=draw(gen.spd(N)), K=draw(gen.spd(N, 0.5, 2.0)), ab=[draw(gen.num(0, 0.2, 40)), draw(gen.num(0, 0.1, 40))],
                mode=draw(st.integers(0, N - 1)), th=draw(gen.num(0, 6.3)), h=draw(gen.harmonics(4, must=(1,), max_n=3)),
                lq=sorted(draw(st.lists(gen.num(-3, 0.5, 2000), min_size=2, max_size=6, unique=True))),
                f=draw(gen.vec(2, 1.0)), cp=draw(gen.vec(N, 1.0)), Om=[1.0 + 0.3 * k for k in range(3)],
                s=draw(gen.num(0.01, 0.99, 98)), F=draw(gen.vec(N, 1.0)))


@clause(lin_case, quick=1500, shards=2, rule='some point returned')
def linear_system_exact(c, t):
    """Linear proportionally damped system: with the exact modal backbone and a force on that mode the reduced model equals
    the dense linear solution at its frequencies; constant displacement forces give the asked amplitude."""
    from tmdsimpy.roms import epmc
    import scipy.linalg as sl
    N, h = c['N'], c['h']
    M, K = arr(c['M']), arr(c['K'])
    C = c['ab'][0] * M + c['ab'][1] * K
    lam, Phi = sl.eigh(K, M)
    wn, phi = np.sqrt(lam[c['mode']]), Phi[:, c['mode']]
    xi = phi @ C @ phi
    if xi < 1e-3 * wn:
        t.skip('no damping')
    n = ref.nhc(h) * N
    U = np.zeros(n)
    rom.put(U, N, h, 1, phi * np.exp(-1j * c['th']))
    bb = np.array([np.r_[U, wn, xi, lq] for lq in c['lq']])
    f = c['f'][0] - 1j * c['f'][1]
    if abs(f) < 0.05:
        t.skip('no force')
    F = M @ phi * f                                              # excites this mode only
    Fl = np.zeros(n)
    rom.put(Fl, N, h, 1, F)
    X, amp, th = epmc.constant_force(bb, N, np.array(h), Fl=Fl)
    for j in range(len(X)):
        Om = X[j, -1]
        x = np.linalg.solve(K - Om ** 2 * M + 1j * Om * C, F)
        s = np.linalg.cond(K - Om ** 2 * M + 1j * Om * C)
        got = rom.comp(X[j], N, h, 1)
        t.close(np.r_[got.real, got.imag], np.r_[x.real, x.imag], 'linear response at row %d' % j, rtol=1e-7 + 1e-12 * s)
        rest = X[j, :-1].copy()
        rom.put(rest, N, h, 1, 0 * got)
        t.ok(np.all(rest == 0), 'other harmonics of a linear response')
    cp, Fc = arr(c['cp']), arr(c['F'])
    if abs(cp @ phi) > 0.05 and abs(phi @ Fc) > 0.05:
        A = abs(cp @ phi) * 10 ** arr(c['lq'])
        a = A[0] + c['s'] * (A[-1] - A[0])
        Om = wn * arr(c['Om'])
        fm, pt = epmc.constant_displacement(bb, np.array(h), Fc, Om, cp, a)
        # single-mode response to fm * Fc
        x = (cp @ phi) * (phi @ Fc) * fm / rom.dyn(wn, xi / (2 * wn), Om)
        t.close(np.abs(x), a * np.ones(len(Om)), 'controlled amplitude of the linear mode', rtol=1e-9)
        t.close(10 ** pt[-1], a / abs(cp @ phi), 'modal amplitude of the controlled point', rtol=1e-10, shape=False)
        t.label('displacement')
    t.nontrivial(len(X) > 0)


@st.composite
def disp_case(draw):
    b = draw(rom.backbone(var=0.08))
    N = b['N']
    return dict(b=b, F=draw(gen.vec(N, 1.0)), cp=draw(gen.vec(N, 1.0)), at=draw(gen.num(-0.15, 1.15, 130)),
                node=draw(st.integers(0, 4)), Om=[abs(x) + 0.1 for x in draw(gen.vec(draw(st.integers(1, 5)), 4.0))],
                opt=draw(st.sampled_from(['none', 'none', 'w', 'wv', 'z', 'zv', 'wvzv', 'wz'])),
                wv=draw(gen.vec(b['M'], 0.5)), zv=draw(gen.vec(b['M'], 0.5)))


@clause(disp_case, quick=2500, shards=2, rule='amplitude inside of the backbone')
def constant_displacement_equation(c, t):
    """Controlled amplitude: the backbone interpolated linearly at the amplitude of the control point (linear modal
    amplitude) and the force magnitude from the single-mode equation at every frequency."""
    from tmdsimpy.roms import epmc
    b = c['b']
    N, h, bb = b['N'], b['h'], rom.rows(b)
    kw, w, z = overrides(c, bb)
    cp, F, Om = arr(c['cp']), arr(c['F']), arr(c['Om'])
    q = 10 ** bb[:, -1]
    A = np.abs(rom.comp(bb, N, h, 1) @ cp) * q
    if np.any(np.diff(A) <= 1e-9 * A[1:]) or np.linalg.norm(cp) < 0.1:
        t.skip('control amplitude not increasing')
    a = A[0] + c['at'] * (A[-1] - A[0])
    if c['node'] == 0:
        a = A[min(int(abs(c['at']) * len(A)), len(A) - 1)]
    lin = bb.copy()
    lin[:, -3], lin[:, -2], lin[:, -1] = w, 2 * w * z, q
    P = rom.interp(lin, a, A)
    keep = [x.copy() for x in (bb, F, Om, cp)]
    fm, pt = epmc.constant_displacement(bb, np.array(h), F, Om, cp, a, **kw)
    for x, y, nm in zip((bb, F, Om, cp), keep, ('backbone', 'Flcos', 'Omega', 'control_point')):
        t.same(x, y, nm + ' modified')
    if min(abs(a - A[0]), abs(a - A[-1])) < 1e-9 * a:
        if np.any(np.isnan(pt)) or np.any(np.isnan(P)):
            t.skip('end of the backbone within rounding')
    if np.isnan(P[0]):
        t.ok(np.all(np.isnan(pt)) and np.all(np.isnan(fm)), 'amplitude outside of the backbone is not marked')
        t.label('outside')
        return
    lq = P.copy()
    lq[-1] = np.log10(P[-1])
    t.close(pt[:-1], lq[:-1], 'interpolated backbone point', rtol=1e-9)
    t.close(pt[-1], lq[-1], 'interpolated log amplitude', rtol=0, atol=1e-9, shape=False)
    pF = rom.comp(P, N, h, 1).conj() @ F
    t.ok(fm.shape == Om.shape, 'shape of the force magnitude')
    if abs(pF) > 1e-6:
        D = np.abs(rom.dyn(P[-3], P[-2] / (2 * P[-3]), Om))
        t.close(fm * abs(pF), D * P[-1], 'force magnitude', rtol=1e-9,
                atol=1e-12 * P[-1] * np.max((P[-3] ** 2 + Om ** 2) ** 2 / np.maximum(D, 1e-9)))
    t.label(c['opt'])
    t.nontrivial()
