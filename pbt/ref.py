"""Independent reference models (plain time-domain sums and loops, no FFT, no code of the repository)."""
import numpy as np


def nhc(h):
    return sum(2 if k else 1 for k in h)


def basis(h, tau, order=0):
    """Columns: nth derivative wrt normalised time t (tau in [0,1) -> t=2*pi*tau) of 1, cos, sin ..."""
    t = 2 * np.pi * np.asarray(tau, dtype=float)
    cols = []
    for k in h:
        if k == 0:
            cols.append(np.ones_like(t) if order == 0 else np.zeros_like(t))
        else:
            ph = order * np.pi / 2
            # d^n/dt^n cos(kt) = k^n cos(kt + n pi/2)
            c, s = [(np.cos(k * t), np.sin(k * t)), (-np.sin(k * t), np.cos(k * t)),
                    (-np.cos(k * t), -np.sin(k * t)), (np.sin(k * t), -np.cos(k * t))][order % 4]
            cols.append(float(k) ** order * c)
            cols.append(float(k) ** order * s)
    return np.array(cols).T


def series(h, X, Nt, order=0):
    tau = np.arange(Nt) / Nt
    return basis(h, tau, order) @ X


def project(h, x):
    """Discrete Fourier projection of samples over one cycle."""
    x = np.asarray(x, dtype=float)
    Nt = x.shape[0]
    E = basis(h, np.arange(Nt) / Nt, 0)
    out = 2.0 / Nt * (E.T @ x)
    if h[0] == 0:
        out[0] *= 0.5
    return out


def split(U, N, h):
    """(Nhc, N) from flat U ordered component by component."""
    return np.asarray(U, dtype=float).reshape(nhc(h), N)


def shift(X, h, th):
    """Coefficients of x(t + th) (t normalised)."""
    Y, r = np.array(X, dtype=float), 0
    for k in h:
        if k == 0:
            r += 1
            continue
        a, b = X[r], X[r + 1]
        Y[r] = a * np.cos(k * th) + b * np.sin(k * th)
        Y[r + 1] = -a * np.sin(k * th) + b * np.cos(k * th)
        r += 2
    return Y


def flat(X):
    return np.asarray(X).reshape(-1)


# ----------------------------------------------------------------------------- force laws
def law_inst(spec, u, v):
    """Instantaneous law on (Nt, Nnl) local displacement / velocity."""
    ty, p = spec['type'], spec['p']
    if ty == 'cubic':
        return np.asarray(p['k']) * u * u * u
    if ty == 'quintic':
        return np.asarray(p['k']) * u * u * u * u * u
    if ty == 'cubdamp':
        return np.asarray(p['c']) * v * v * v
    if ty == 'genpoly':
        E, q = np.asarray(p['E'], dtype=float), p['q']
        terms = np.ones((u.shape[0], len(q)))
        for c, row in enumerate(q):
            for j, e in enumerate(row):
                for _ in range(int(e)):
                    terms[:, c] = terms[:, c] * u[:, j]
        return terms @ E.T
    if ty == 'unispring':
        k, N, d = (np.asarray(p[x], dtype=float) * np.ones(u.shape[1]) for x in ('k', 'N', 'd'))
        return np.where(u > d, k * (u - d) - N, -N * np.ones_like(u))
    if ty == 'iwanbb':
        kt, Fs, chi, beta = p['kt'], p['Fs'], p['chi'], p['beta']
        rat = (chi + 1) / (chi + 2)
        phimax = Fs * (1 + beta) / (kt * (beta + rat))
        # backbone of Segalman's model: R/S density integrated directly
        R = Fs * (chi + 1) / (phimax ** (chi + 2) * (beta + rat))
        S = Fs * beta / (phimax * (beta + rat))
        a = np.abs(u)
        am = np.minimum(a, phimax)
        # sliders phi<a slip (force phi), others stuck (force a)
        f = R * am ** (chi + 2) / (chi + 2) + am * R * (phimax ** (chi + 1) - am ** (chi + 1)) / (chi + 1) + S * am
        return np.sign(u) * f
    raise KeyError(ty)


class Sliders:
    """Parallel springs k_i in series with Coulomb sliders of limit f_i (all driven by one displacement)."""

    def __init__(self, k, f):
        self.k = np.asarray(k, dtype=float)
        self.f = np.asarray(f, dtype=float)
        self.reset()

    def reset(self, u0=0.0):
        self.u = float(u0)
        self.q = np.zeros_like(self.k)

    def trial(self, u, f=None):
        f = self.f if f is None else f
        pred = self.q + self.k * (u - self.u)
        return np.clip(pred, -f, f), pred

    def commit(self, u, q):
        self.u, self.q = float(u), q


def sliders_of(spec):
    p = spec['p']
    if spec['type'] in ('jenkins', 'vecjenkins', 'jaxjenkins', 'jaxvecjenkins'):
        return Sliders([p['kt']], [p['Fs']])
    kt, Fs, chi, beta, n = p['kt'], p['Fs'], p['chi'], p['beta'], p['n']
    al = p.get('alpha', 1.0)
    rat = (chi + 1) / (chi + 2)
    phimax = Fs * (1 + beta) / kt / (beta + rat)
    if al > 1:
        d = phimax * (al - 1) / (al ** n - 1) * al ** np.arange(n)
    else:
        d = np.ones(n) * phimax / n
    edge = np.concatenate(([0.0], np.cumsum(d)))
    phi = 0.5 * (edge[1:] + edge[:-1])
    R = Fs * (chi + 1) / (phimax ** (chi + 2) * (beta + rat))
    S = Fs * beta / (phimax * (beta + rat))
    w = np.concatenate((R * phi ** chi * d, [S]))
    ph = np.concatenate((phi, [phimax]))
    return Sliders(w, w * ph)


def march(spec, u, cycles=2, u0=0.0):
    """Force over the last of `cycles` passes through samples u (Nt,) starting slider at u0."""
    s = sliders_of(spec)
    s.reset(u0)
    out = np.zeros(len(u))
    for c in range(cycles):
        for i, ui in enumerate(u):
            q, _ = s.trial(ui)
            s.commit(ui, q)
            out[i] = q.sum()
    return out


def march_eldry(p, u, u0, cycles=2, dim=2):
    """u (Nt, n*dim), u0 per tangential direction; returns force (Nt, n*dim)."""
    Nt = u.shape[0]
    f = np.zeros_like(u)
    nel = u.shape[1] // dim
    for e in range(nel):
        nrm = np.maximum((u[:, e * dim + dim - 1] - p['gap']) * p['kn'], 0.0)
        f[:, e * dim + dim - 1] = nrm
        for a in range(dim - 1):
            col = e * dim + a
            up, fp = u0[e * (dim - 1) + a], 0.0
            for c in range(cycles):
                for i in range(Nt):
                    fp = min(max(fp + p['kt'] * (u[i, col] - up), -p['mu'] * nrm[i]), p['mu'] * nrm[i])
                    up = u[i, col]
                    f[i, col] = fp
    return f


HYST1 = ('jenkins', 'vecjenkins', 'iwan4', 'veciwan4')


def local_hist(spec, h, Ul, w, Nt):
    """Reference local force samples for local coefficients Ul (Nhc, Nnl)."""
    u = series(h, Ul, Nt, 0)
    if spec['type'] in HYST1:
        # slider start: zeroth harmonic; irrelevant for what is projected when harmonic 0 is not kept
        u0 = Ul[0, 0] if h[0] == 0 else Ul[0, 0]
        return march(spec, u[:, 0], 2, u0)[:, None]
    if spec['type'] in ('jaxjenkins', 'jaxvecjenkins'):
        u0 = spec['p'].get('u0', 0.0)
        return march(spec, u[:, 0], 2, Ul[0, 0] if u0 is None else u0)[:, None]
    if spec['type'] in ('eldry2d', 'eldry3d'):
        dim = 2 if spec['type'] == 'eldry2d' else 3
        u0 = spec['p'].get('u0', 0.0)
        tang = [i for i in range(u.shape[1]) if i % dim != dim - 1]
        u0 = Ul[0, tang] if u0 is None else (np.asarray(u0, dtype=float) * np.ones(u.shape[1]))[tang]
        return march_eldry(spec['p'], u, u0, 2, dim)
    v = w * series(h, Ul, Nt, 1)
    return law_inst(spec, u, v)


def aft(spec, U, w, h, Nt):
    Q, Tm = np.array(spec['Q'], dtype=float), np.array(spec['T'], dtype=float)
    Ul = split(U, Q.shape[1], h) @ Q.T
    f = local_hist(spec, h, Ul, w, Nt)
    return flat(project(h, f) @ Tm.T)


def harm_force_scale(spec, U, w, h, Nt):
    Q, Tm = np.array(spec['Q'], dtype=float), np.array(spec['T'], dtype=float)
    Ul = split(U, Q.shape[1], h) @ Q.T
    f = local_hist(spec, h, Ul, w, Nt)
    return float(np.max(np.abs(f), initial=0.0)) * max(1e-12, float(np.max(np.abs(Tm), initial=0.0)))


def lin_res(M, C, K, U, w, h):
    """Harmonic coefficients of M x'' + C x' + K x (time domain definition, coefficient by coefficient)."""
    M, C, K = np.array(M, float), np.array(C, float), np.array(K, float)
    X = split(U, M.shape[0], h)
    R = np.zeros_like(X)
    r = 0
    for k in h:
        if k == 0:
            R[r] = K @ X[r]
            r += 1
        else:
            a, b = X[r], X[r + 1]          # x = a cos + b sin
            kw = k * w
            R[r] = K @ a - kw ** 2 * (M @ a) + kw * (C @ b)
            R[r + 1] = K @ b - kw ** 2 * (M @ b) - kw * (C @ a)
            r += 2
    return flat(R)


def A(x):
    return np.array(x, dtype=float)
