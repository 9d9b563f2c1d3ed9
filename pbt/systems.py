"""Vibration systems: generation, construction and the reference periodic equation of motion."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, forces
from pbt.ref import A

ALLFREQ = forces.INST + forces.HYST
TWICE = ('jaxjenkins', 'jaxvecjenkins') + forces.ELDRY       # compiled: keep harmonic sets few


@st.composite
def system(draw, types=ALLFREQ, N=None, nf=(0, 3), damp=None, sym=True):
    """damp: None (any), 'ab', 'C', 'none'"""
    N = draw(st.integers(1, 3)) if N is None else N
    M = draw(gen.spd(N))
    if sym or draw(st.booleans()):
        K = draw(gen.spd(N, 0.5, 2.0))
    else:
        K = draw(gen.mat(N, N, 3.0))
        if draw(st.booleans()):          # any mass matrix (generalized coordinates), too
            S = draw(gen.mat(N, N, 0.5))
            M = [[a + (b if j > i else 0.0) for j, (a, b) in enumerate(zip(r, q))] for i, (r, q) in enumerate(zip(M, S))]
    d = draw(st.sampled_from(['ab', 'C', 'C', 'none'])) if damp is None else damp
    s = dict(N=N, M=M, K=K)
    if d == 'ab':
        lo = draw(st.sampled_from([0, 0, 0, -0.3]))      # self excitation, too
        s['ab'] = [draw(gen.num(lo, 0.3, 60)), draw(gen.num(lo, 0.3, 60))]
    elif d == 'C':
        s['C'] = draw(gen.mat(N, N, 0.4))
    s['forces'] = [draw(forces.spec(types, N)) for _ in range(draw(st.integers(*nf)))]
    return s


def float_free(s, kind):
    """Stiffness without restraint: 1 a rigid body translation is free, 2 the first degree of freedom is not attached."""
    K = A(s['K'])
    N = len(K)
    P = np.eye(N) - 1.0 / N if kind == 1 else np.diag([0.0] + [1.0] * (N - 1))
    s['K'] = (P @ K @ P).tolist()
    return s


def mats(s):
    M, K = A(s['M']), A(s['K'])
    if 'ab' in s:
        C = s['ab'][0] * M + s['ab'][1] * K
    elif 'C' in s:
        C = A(s['C'])
    else:
        C = np.zeros_like(M)
    return M, C, K


def build(s, objs=None, given=None):
    from tmdsimpy.vibration_system import VibrationSystem
    M, K, C, ab = A(s['M']), A(s['K']), A(s['C']) if 'C' in s else None, s.get('ab')
    if given is not None:
        given.update({k: (v, np.array(v)) for k, v in dict(M=M, K=K, C=C, ab=ab).items() if v is not None})
    vs = VibrationSystem(M, K, C=C, ab=ab)
    for f in ([forces.build(x) for x in s['forces']] if objs is None else objs):
        vs.add_nl_force(f)
    return vs


def motion(c):
    """Displacement coefficients of a case: generic values off the transition points of the laws, and in a quarter of
    the cases exact zeros (nothing moves, only one harmonic is present, one degree of freedom rests)."""
    from pbt.fd import jitter
    U = c['amp'] * jitter(c['U'], c['seed'])
    k, N = c['seed'] % 16, c['s']['N']
    if k == 5:
        return np.zeros_like(U)
    if k == 6:
        j = (c['seed'] // 16) % len(c['h'])
        keep = np.concatenate([np.full((2 if h else 1) * N, i == j) for i, h in enumerate(c['h'])])
        return U * keep if keep.size == U.size else U
    if k in (7, 8) and U.size % N == 0:
        V = U.reshape(-1, N).copy()
        V[:, (c['seed'] // 16) % N] = 0.0
        return V.reshape(-1)
    return U


def resting(c):
    """Exact zeros in the motion of forces that may have a kink there: values are judged, derivatives are not."""
    return ('U' in c and 5 <= c.get('seed', 0) % 16 <= 8 and isinstance(c.get('s'), dict) and
            any(f['type'] not in forces.SMOOTH for f in c['s'].get('forces', ())))


def any_hyst(s):
    return any(f['type'] in forces.HYST for f in s['forces'])


def grad_flag_ok(s):
    return all(forces.has_grad_flag(f['type']) for f in s['forces'])


def early(s, U, h, Nt):
    """Some NumPy hysteretic force may end its cycles at the first (documented convergence test at zero force)."""
    for f in s['forces']:
        if f['type'] in forces.HYST:
            Ul = ref.split(U, s['N'], h) @ A(f['Q']).T
            u = ref.series(h, Ul, Nt)[:, 0]
            F1, F2 = ref.march(f, u, 1, Ul[0, 0]), ref.march(f, u, 2, Ul[0, 0])
            if abs(F1[-1]) < 1e-7 and np.max(np.abs(F1 - F2)) > 0:
                return True
    return False


def fnl(s, U, w, h, Nt):
    """Reference total harmonic force and its magnitude scale."""
    F = np.zeros(ref.nhc(h) * s['N'])
    sc = 0.0
    for f in s['forces']:
        F = F + ref.aft(f, U, w, h, Nt)
        sc += ref.harm_force_scale(f, U, w, h, Nt)
    return F, sc


def residual(s, U, w, h, Nt, Fl=0.0, C=None):
    """Reference harmonic residual and magnitude scale."""
    M, C0, K = mats(s)
    C = C0 if C is None else C
    F, sc = fnl(s, U, w, h, Nt)
    L = ref.lin_res(M, C, K, U, w, h)
    hm = max(h)
    sc += np.max(np.abs(U), initial=0) * (np.abs(M).max() * (hm * w) ** 2 + np.abs(C).max() * abs(hm * w)
                                          + np.abs(K).max()) * s['N'] + np.max(np.abs(Fl), initial=0)
    return L + F - Fl, sc


@st.composite
def hb_case(draw, types=ALLFREQ, nf=(0, 3), maxh=5, must=(), amp=(0.1, 1.0, 3.0), zero=None, **k):
    wide = draw(st.sampled_from(['', '', '', '', '', '', 'N', 'h', 'w', 'amp', 'Nt']))
    if wide == 'N' and 'N' not in k:
        k = dict(k, N=draw(st.integers(4, 6)))
        nf = (nf[0], nf[1] + 3)
    s = draw(system(types, nf=nf, **k))
    h = draw(gen.harmonics(15 if wide == 'h' else maxh, zero=zero, must=must, max_n=7 if wide == 'h' else 3))
    Nt = draw(gen.nt_for(h, choices=(8, 16, 20, 32, 64) if wide != 'Nt' else (100, 126, 128, 130, 256)))
    n = ref.nhc(h) * s['N']
    w = draw(gen.num(0.3, 2.5)) if wide != 'w' else draw(gen.logn(1e-2, 1e2))
    if wide == 'amp':
        amp = (1e-5, 1e-3, 30.0)
    return dict(s=s, h=h, Nt=Nt, w=w, U=draw(gen.vec(n, 1.0)), Fl=draw(gen.vec(n, 2.0)),
                amp=draw(st.sampled_from(amp)), seed=draw(st.integers(0, 9999)))


@st.composite
def hb_jax_case(draw, types=TWICE, nf=(1, 2), must1=False, **k):
    s = draw(system(types, N=2, nf=nf, **k))
    combos = [([0, 1], 16), ([0, 1, 2, 6], 32), ([1, 3], 32)]
    h, Nt = draw(st.sampled_from(combos))
    n = ref.nhc(h) * s['N']
    return dict(s=s, h=h, Nt=Nt, w=draw(gen.num(0.3, 2.5)), U=draw(gen.vec(n, 1.0)), Fl=draw(gen.vec(n, 2.0)),
                amp=draw(st.sampled_from([0.3, 1.0, 3.0])), seed=draw(st.integers(0, 9999)))


def warm(vs, s, c):
    """Use the system (other frequencies, harmonics, sample counts, loads, damping) before the judged evaluation.

    No evaluation may leave anything behind, so this is transparent; what it does follows from the case alone.
    """
    import json, zlib
    rs = np.random.RandomState(zlib.crc32(json.dumps(c, sort_keys=True, default=str).encode()) % (2 ** 31))
    if rs.randint(2):
        return vs
    if 'h' not in c:
        return warm_frf(vs, s, c, rs)
    types = {f['type'] for f in s['forces']}
    jaxy = bool(types & set(TWICE) or types & set(forces.ROUGH))
    n = s['N']
    changed = False
    for _ in range(rs.randint(1, 4)):
        h, Nt, w = list(c['h']), c.get('Nt', 16), c.get('w', 1.0)
        w = float(np.ravel(w)[0]) if np.size(w) else 1.0
        k = rs.randint(5)
        if k == 0 and not jaxy:
            h = sorted(set(rs.randint(1, 5, size=2).tolist() + [1] + ([0] if rs.randint(2) else [])))
        if (k == 1 and not jaxy) or (jaxy is False and Nt <= 2 * max(h) + 1):
            Nt = int(2 * max(h) + 2 + 2 * rs.randint(1, 6))
        if k == 2:
            w = float(rs.uniform(.3, 2))
        if k == 3:
            vs.set_new_C(C=np.round(rs.uniform(-.3, .3, (n, n)), 3))
            changed = True
        nn = ref.nhc(h) * n
        U = A(c['U']).ravel() if 'U' in c and np.size(c['U']) == nn and rs.randint(2) else rs.uniform(-1, 1, nn)
        Fl = A(c['Fl']).ravel() if 'Fl' in c and np.size(c['Fl']) == nn and rs.randint(2) else rs.uniform(-1, 1, nn)
        ha = np.array(h)
        q = rs.randint(7)
        try:
            if q == 0:
                vs.hbm_res(np.r_[U, w], Fl, ha, Nt=Nt)
            elif q == 1:
                vs.hbm_res_dFl(np.r_[U, .7], w, Fl, ha, Nt=Nt)
            elif q == 2:
                vs.epmc_res(np.r_[U, w, .03, -.4], Fl, ha, Nt=Nt)
            elif q == 3:
                vs.hbm_amp_control_res(np.r_[U, .8, w], Fl, ha, rs.uniform(-1, 1, n), .5, int(rs.randint(3)), Nt=Nt)
            elif q == 4 and len(h) > 1 and h[-1] > 1:
                vs.vprnm_res(np.r_[U, w, .6], ha, h[-1], Fl, Nt=Nt)
            elif q == 5 and n > 1:
                b = np.zeros(n, dtype=bool)
                b[rs.randint(n)] = True
                free = n - 1
                vs.hbm_base_res(np.r_[rs.uniform(-1, 1, ref.nhc(h) * free), w], rs.uniform(-1, 1, ref.nhc(h)), b, ha, Nt=Nt)
            elif q == 6:
                vs.static_res(rs.uniform(-1, 1, n), rs.uniform(-1, 1, n))
            else:
                vs.total_aft(U, w, ha, Nt=Nt)
        except Exception:
            pass        # judged elsewhere with arguments chosen for it
    if changed:
        if 'ab' in s:
            vs.set_new_C(ab=s['ab'])
        else:
            vs.set_new_C(C=mats(s)[1])
    return vs


def warm_frf(vs, s, c, rs):
    """The same for linear frequency responses."""
    from tmdsimpy.solvers import NonlinearSolver
    n = s['N']
    for _ in range(rs.randint(1, 3)):
        w = A(c['w']).ravel() if rs.randint(2) else rs.uniform(.3, 2, rs.randint(1, 4))
        if 'ab' in s and rs.randint(2):
            vs.set_new_C(ab=[.07, .03])
        try:
            if n > 1 and rs.randint(2):
                b = np.zeros(n, dtype=bool)
                b[rs.randint(n)] = True
                vs.linear_frf_base(w, rs.uniform(-1, 1, 2), b, NonlinearSolver(), neigs=int(rs.randint(1, n + 1)))
            else:
                vs.linear_frf(w, rs.uniform(-1, 1, n), NonlinearSolver(), neigs=int(rs.randint(1, n + 1)),
                              Flsin=rs.uniform(-1, 1, n) if rs.randint(2) else None)
        except Exception:
            pass
        if 'ab' in s:
            vs.set_new_C(ab=s['ab'])
    return vs
