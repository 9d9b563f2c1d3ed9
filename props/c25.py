"""C25 VPRNM reduced-order model combines its backbones consistently."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, rom
from pbt.core import clause, arr


@st.composite
def vcase(draw):
    N = draw(st.integers(1, 3))
    rhi = draw(st.sampled_from([2, 3, 3, 5]))
    hF = draw(st.sampled_from([[1], [0, 1], [0, 1, 2], [1, 3], [1, 5], [0, 1, 4], [1, 2, 7]]))
    hS = draw(st.sampled_from([[1], [0, 1], [1, 2], [1, 3], [0, 1, 2]]))
    hV = sorted({1, rhi} | set(draw(st.sampled_from([[], [0], [0, 2], [4], [0, 3, 7]]))))
    bF = draw(rom.backbone(N=N, h=hF, var=0.05, M=draw(st.integers(2, 6)), linear=draw(st.integers(0, 3)) == 0))
    bS = draw(rom.backbone(N=N, h=hS, var=0.05, M=draw(st.integers(2, 8)), linear=draw(st.booleans())))
    Mv = draw(st.integers(2, 5))
    nV = ref.nhc(hV) * N
    sg = st.sampled_from([1.0, 1.0, -1.0])
    return dict(N=N, rhi=rhi, hF=hF, hS=hS, hV=hV, bF=bF, bS=bS, Mv=Mv, four=draw(st.booleans()),
                V=draw(gen.mat(Mv, nV, 1.0)), a=draw(gen.num(0.05, 0.95, 90)), a0=draw(gen.num(0.3, 0.95, 60)),
                da=[draw(gen.num(0.1, 0.7, 40)) for _ in range(Mv - 1)], u=[draw(gen.num(0.03, 0.97, 90)) for _ in range(Mv)],
                wv=draw(gen.vec(Mv, 0.2)), fv=draw(gen.mat(Mv, 2, 1.0)), cp1=draw(gen.vec(N, 1.0)), cpR=draw(gen.vec(N, 1.0)),
                same=draw(st.booleans()), F=draw(gen.vec(N, 1.0)), corr=draw(st.booleans()),
                extra=draw(st.lists(gen.num(-0.2, 1.2, 500), min_size=1, max_size=6, unique=True)),
                s=draw(st.sampled_from([1e-6, 1e-3, 10.0, 1e3, 1e6])), pad=draw(st.integers(2, 7)))


def inputs(c, t):
    N, rhi = c['N'], c['rhi']
    F, S = rom.rows(c['bF']), rom.rows(c['bS'])
    cp1 = arr(c['cp1']) + np.where(arr(c['cp1']) >= 0, 0.3, -0.3)
    cpR = cp1 if c['same'] else arr(c['cpR']) + np.where(arr(c['cpR']) >= 0, 0.3, -0.3)
    AF = np.abs(rom.comp(F, N, c['hF'], 1) @ cp1) * 10 ** F[:, -1]
    AS = np.abs(rom.comp(S, N, c['hS'], 1) @ cpR) * 10 ** S[:, -1]
    if np.any(np.diff(AF) <= 1e-6 * AF[1:]) or np.any(np.diff(AS) <= 1e-6 * AS[1:]):
        t.skip('amplitude of a backbone not increasing')
    a = AF[0] + c['a'] * (AF[-1] - AF[0])
    V = arr(c['V'])
    da = np.cumsum(c['da'])
    Av = a * (c['a0'] + np.r_[0, da * max(1.0, (1.05 - c['a0']) / da[-1])])
    ar = AS[0] + arr(c['u']) * (AS[-1] - AS[0])
    for k, cp, A in ((1, cp1, Av), (rhi, cpR, ar)):
        z = rom.comp(V, N, c['hV'], k)
        g = np.abs(z @ cp)
        if np.any(g < 0.02):
            t.skip('VPRNM harmonic vanishes at the control point')
        rom.put(V, N, c['hV'], k, z * (A / g)[:, None])
    wv = c['bS']['w'] / rhi * (1 + arr(c['wv']))
    f = arr(c['fv'])
    if c['four']:
        vb = np.hstack((V, f, wv[:, None], Av[:, None]))
    else:
        vb = np.hstack((V, wv[:, None], np.abs(f[:, :1]) + 0.1))
    return dict(F=F, S=S, V=vb, cp1=cp1, cpR=cpR, a=a, Av=Av, Fc=arr(c['F']))


def call(c, i, **k):
    from tmdsimpy.roms import vprnm
    return vprnm.constant_h1_displacement(i['F'], np.array(i.get('hF', c['hF'])), i['S'], np.array(i.get('hS', c['hS'])),
                                          i['V'], np.array(i.get('hV', c['hV'])), c['rhi'], i['cp1'], i['a'], i['cpR'],
                                          i['Fc'], **k)


def model(c, i, t):
    """(rows sorted by frequency, harmonics, fundamental force, corrected force, superharmonic amplitude)"""
    N, rhi, hF, hS, hV = c['N'], c['rhi'], c['hF'], c['hS'], c['hV']
    P = rom.interp(i['V'], i['a'], i['Av'])
    if np.isnan(P[0]) or i['a'] < i['Av'][0] * (1 + 1e-9) or i['a'] > i['Av'][-1] * (1 - 1e-9):
        t.skip('amplitude outside of the VPRNM backbone')
    wV = P[-2]
    fV = np.hypot(P[-4], P[-3]) if c['four'] else P[-1]
    S = i['S'].copy()
    S[:, -1] = 10 ** S[:, -1]
    AS = np.abs(rom.comp(S, N, hS, 1) @ i['cpR']) * S[:, -1]
    zV = rom.comp(P, N, hV, rhi)
    aR = abs(zV @ i['cpR'])
    if not AS[0] * (1 + 1e-9) < aR < AS[-1] * (1 - 1e-9):
        t.skip('superharmonic amplitude outside of its backbone')
    Q = rom.interp(S, aR, AS)
    qS, wS, zS = Q[-1], Q[-3], Q[-2] / (2 * Q[-3])
    if np.any(np.abs(S[:, -1] - qS) < 1e-9 * qS):
        t.skip('superharmonic amplitude at a backbone point')
    fS = 2 * qS * (rhi * wV) ** 2 * zS
    B = np.vstack((S[S[:, -1] < qS], Q))
    pts = []
    for m, r in enumerate(B):
        last = m == len(B) - 1
        w, z = r[-3] / wS * rhi * wV, r[-2] / (2 * r[-3])
        if last:
            R = [(w * np.sqrt(1 - 4 * z ** 2), -1), (w, 1)] if z < 0.5 else [(w, 1)]
            if abs(z - 0.5) < 1e-6 or z < 1e-3:
                t.skip('peak within rounding')
        else:
            R = rom.roots(w, z, r[-1], fS)
            if R is None:
                t.skip('boundary of a real solution')
        for Om, sg in R:
            pts.append((Om, r, np.angle(rom.dyn(w, z, Om)), last and sg == 1))
    pts.sort(key=lambda p: p[0])
    Om = np.array([p[0] for p in pts])
    if np.any(np.diff(Om) < 1e-6 * Om[1:]):
        t.skip('equal frequencies')
    peak = [k for k, p in enumerate(pts) if p[3]][0]
    # delay of the superharmonic such that the peak matches the VPRNM phase at the control point
    nS = ref.nhc(hS) * N
    zpk = rom.comp(rom.delayed(pts[peak][1][:nS], N, hS, pts[peak][2]), N, hS, 1) @ i['cpR']
    al = np.angle(zpk) - np.angle(zV @ i['cpR'])
    # fundamental
    L = i['F'].copy()
    L[:, -1] = 10 ** L[:, -1]
    AF = np.abs(rom.comp(L, N, hF, 1) @ i['cp1']) * L[:, -1]
    E = rom.interp(L, i['a'], AF)
    nF = ref.nhc(hF) * N
    U = E[:nF] * E[-1]
    be = np.angle(rom.comp(U, N, hF, 1) @ i['cp1']) - np.angle(rom.comp(P, N, hV, 1) @ i['cp1'])
    U = rom.delayed(U, N, hF, be)
    hout = sorted(set([hV[0]] + hF + [rhi * k for k in hS]))
    X = np.zeros((len(pts), ref.nhc(hout) * N + 1))
    if hV[0] == 0:
        X[:, :N] = P[:N]
    for k in hF:
        if k:
            rom.put(X, N, hout, k, rom.comp(X, N, hout, k) + rom.comp(U, N, hF, k))
    q = np.array([p[1][-1] for p in pts])
    for j, (om, r, th, _) in enumerate(pts):
        u = rom.delayed(r[:nS] * r[-1], N, hS, th + al)
        for k in hS:
            if k:
                rom.put(X[j], N, hout, rhi * k, rom.comp(X[j], N, hout, rhi * k) + rom.comp(u, N, hS, k))
    X[:, -1] = Om / rhi
    pF = abs(rom.comp(E, N, hF, 1).conj() @ i['Fc'])
    if pF < 1e-3:
        t.skip('no modal force')
    force = lambda w: E[-1] * np.abs(rom.dyn(E[-3], E[-2] / (2 * E[-3]), w)) / pF
    f0 = force(X[:, -1])
    f1 = f0 + (fV - f0[peak]) * q / qS
    return dict(X=X, h=hout, f=f0, fc=f1, q=q, peak=peak, force=force, fV=fV, wV=wV, qS=qS)


@clause(vcase, quick=2500, shards=4, rule='at least three points returned')
def superposition(c, t):
    """Result at every returned frequency against the documented superposition built independently."""
    i = inputs(c, t)
    m = model(c, i, t)
    keep = {k: v.copy() for k, v in i.items() if isinstance(v, np.ndarray)}
    X, f, h = call(c, i, correct_force=c['corr'])
    for k, v in keep.items():
        t.same(i[k], v, 'input %s modified' % k)
    t.ok(list(h) == m['h'], 'harmonics of the result', got=list(h), want=m['h'])
    t.ok(X.shape == m['X'].shape and f.shape == (len(X),), 'shape of the result', got=X.shape, want=m['X'].shape)
    o = np.argsort(X[:, -1], kind='stable')
    X, f = X[o], f[o]
    w = m['X'][:, -1]
    t.close(X[:, -1], w, 'frequencies', rtol=2e-6)
    n = X.shape[1] - 1
    # the response is compared at the frequency of the reference: phases are sensitive to the frequency
    t.close(X[:, :n], m['X'][:, :n], 'displacements', rtol=2e-5)
    want = m['fc'] if c['corr'] else m['f']
    t.close(f, want, 'force magnitude (correct_force=%s)' % c['corr'], rtol=1e-5, scale=np.max(np.abs(m['f'])))
    t.close(X[m['peak'], -1], m['wV'], 'frequency of the VPRNM point', rtol=1e-9, shape=False)
    if c['corr']:
        t.close(f[m['peak']], m['fV'], 'force at the VPRNM point', rtol=0, atol=1e-8 * (m['fV'] + np.max(m['f'])), shape=False)
    N = c['N']
    if m['h'][0] == 0 and c['hV'][0] != 0:
        t.ok(np.all(X[:, :N] == 0), 'static part without a static VPRNM solution')
    t.label('rhi%d' % c['rhi'], 'four%d' % c['four'], 'corr%d' % c['corr'])
    t.nontrivial(len(X) >= 3)


@clause(vcase, quick=1500, shards=4, rule='at least three points returned')
def invariances(c, t):
    """Extra frequencies, other storage of the harmonics, the other VPRNM format and a change of units leave the response
    at shared points unchanged (up to the change of units); repeated calls agree."""
    i = inputs(c, t)
    m = model(c, i, t)
    N, rhi = c['N'], c['rhi']
    X, f, h = call(c, i, correct_force=c['corr'])
    X2, f2, _ = call(c, i, correct_force=c['corr'])
    t.close(X2, X, 'repeated call', rtol=1e-11)
    t.close(f2, f, 'repeated call (force)', rtol=1e-11)
    n = X.shape[1] - 1
    sc = np.max(np.abs(X[:, :n]))
    # extra frequencies
    if np.all(np.diff(X[:, -1]) > 1e-9):
        lo, hi = X[0, -1], X[-1, -1]
        ex = lo + arr(c['extra']) * (hi - lo)
        ex = ex[(ex > 1e-3) & (np.min(np.abs(ex[:, None] - X[:, -1]), axis=1) > 1e-7 * hi)]
        if c['corr']:
            ex = ex[(ex > lo) & (ex < hi)]
        ex0 = ex.copy()
        Xe, fe, he = call(c, i, extra_Omega=ex, correct_force=c['corr'])
        t.same(ex, ex0, 'extra_Omega modified')
        t.ok(list(he) == list(h), 'harmonics with extra frequencies')
        t.ok(len(Xe) == len(X) + len(ex), 'number of points with extra frequencies', got=len(Xe), want=len(X) + len(ex))
        t.ok(np.all(np.diff(Xe[:, -1]) >= 0), 'frequencies not sorted')
        isx = np.array([np.min(np.abs(w - X[:, -1])) > 1e-9 * hi for w in Xe[:, -1]])
        t.ok(np.sum(~isx) == len(X), 'points without extra frequencies are kept')
        t.close(np.sort(Xe[isx, -1]), np.sort(ex), 'extra frequencies', rtol=1e-12)
        # interpolation brackets of different rows carry their rounding
        t.close(Xe[~isx, :n], X[:, :n], 'response at shared points', rtol=0, atol=1e-9 * sc)
        t.close(fe[~isx], f, 'force at shared points', rtol=1e-8, scale=np.max(np.abs(m['f'])) + np.max(np.abs(f)))
        for w, x, g in zip(Xe[isx, -1], Xe[isx], fe[isx]):
            want = rom.interp(np.c_[X, m_q(X, m, t)], w, X[:, -1])
            if np.isnan(want[0]):
                t.ok(any(np.isnan(x[:n])), 'superharmonic outside of its range is not marked')
                t.close(g, m['force'](w), 'force outside of the superharmonic range', rtol=1e-8, shape=False)
                t.label('outside')
                continue
            t.close(x[:n], want[:n], 'response interpolated at an extra frequency', rtol=0, atol=1e-7 * sc)
            fw = m['force'](w)
            if c['corr']:
                pk = m['peak']
                fw = fw + (m['fV'] - m['f'][pk]) * want[-1] / m['qS']
            t.close(g, fw, 'force at an extra frequency', rtol=1e-5, scale=np.max(np.abs(m['f'])) + np.max(np.abs(f)),
                    shape=False)
            t.label('inside')
    # zero harmonics stored in the fundamental backbone / the VPRNM backbone
    i2 = dict(i)
    for key, hk, name in (('F', c['hF'], 'hF'), ('V', c['hV'], 'hV')):
        if c['pad'] not in hk:
            hn = sorted(set(hk) | {c['pad']})
            nold = ref.nhc(hk) * N
            Y = np.zeros((len(i[key]), ref.nhc(hn) * N))
            if 0 in hk:
                Y[:, :N] = i[key][:, :N]
            for k in hk:
                if k:
                    rom.put(Y, N, hn, k, rom.comp(i[key], N, hk, k))
            i2[key], i2[name] = np.hstack((Y, i[key][:, nold:])), hn
    X3, f3, h3 = call(c, i2, correct_force=c['corr'])
    hz = sorted(set(list(h)) | (set(i2.get('hF', [])) - {0} if 'hF' in i2 else set()))
    t.ok(list(h3) == hz, 'harmonics after storing a zero harmonic', got=list(h3), want=hz)
    t.close(X3[:, -1], X[:, -1], 'frequencies after storing a zero harmonic', rtol=1e-9)
    t.close(f3, f, 'force after storing a zero harmonic', rtol=1e-8)
    for k in hz:
        if k == 0:
            continue
        want = rom.comp(X, N, list(h), k) if k in h else np.zeros((len(X), N))
        got = rom.comp(X3, N, hz, k)
        t.close(np.abs(got - want), np.zeros(want.shape), 'harmonic %d after storing a zero harmonic' % k, rtol=0, atol=1e-8 * sc)
    # other VPRNM format
    V = i['V']
    if c['four']:
        Vn = np.hstack((V[:, :-4], V[:, -2:-1], np.hypot(V[:, -4], V[:, -3])[:, None]))
    else:
        Vn = np.hstack((V[:, :-2], np.zeros((len(V), 1)), V[:, -1:], V[:, -2:-1], i['Av'][:, None]))
    X4, f4, _ = call(c, dict(i, V=Vn), correct_force=False)
    f0 = call(c, i, correct_force=False)[1]
    t.close(X4, X, 'other VPRNM format', rtol=1e-12)
    t.close(f4, f0, 'force without correction with the other VPRNM format', rtol=1e-12)
    # units of displacement
    s = c['s']
    i5 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in i.items()}
    i5['a'] = i['a'] * s
    # physical static displacements / VPRNM harmonics / modal amplitudes
    nV = ref.nhc(c['hV']) * N
    i5['V'][:, :nV] *= s
    for key, hk in (('F', c['hF']), ('S', c['hS'])):
        i5[key][:, -1] += np.log10(s)
        if 0 in hk:
            i5[key][:, :N] *= s
    if c['four']:
        i5['V'][:, nV:nV + 2] *= s
        i5['V'][:, -1] *= s
    else:
        i5['V'][:, -1] *= s
    X5, f5, _ = call(c, i5, correct_force=c['corr'])
    t.ok(X5.shape == X.shape, 'number of points after a change of units', got=X5.shape, want=X.shape)
    t.close(X5[:, -1], X[:, -1], 'frequencies after a change of units', rtol=1e-5)
    t.close(X5[:, :n] / s, X[:, :n], 'response after a change of units', rtol=1e-4)
    t.close(f5 / s, f, 'force after a change of units', rtol=1e-4)
    t.label('s%g' % s)
    t.nontrivial(len(X) >= 3)


def m_q(X, m, t):
    """superharmonic amplitude of the returned rows (sorted)"""
    return m['q']
