"""Independent reference of the rough contact element (plain loops over asperities)."""
import numpy as np
from pbt import forces


class Rough:
    def __init__(self, s):
        p = s['p']
        self.E, self.nu, self.Re, self.Et, self.sy = forces.ROUGHMAT[p['mat']]
        self.mif = s['type'] == 'roughmif'
        self.mu = p['mu']
        self.realmu = p['mu']
        self.mgap = p['mgap']
        self.gaps, self.gw = np.array(p['gaps'], float), np.array(p['gw'], float)
        self.Es = self.E / 2 / (1 - self.nu ** 2)
        self.Gs = self.E / 2 / (1 + self.nu) / 2 / (2 - self.nu)
        C = self.C = 1.295 * np.exp(0.736 * self.nu)
        self.dy = 2 * (2 * self.Re) * (np.pi * C * self.sy / (4 * self.Es)) ** 2
        r = np.arange(forces.ROUGHRAD) / (forces.ROUGHRAD - 1)
        self.r = r
        w = np.ones(len(r)) / (len(r) - 1)
        w[0] = w[-1] = 0.5 / (len(r) - 1)
        self.w = w
        with np.errstate(all='ignore'):
            k = 0.8709 + 0.1291 / np.sqrt(1 - r ** 2) + 0.0629 * r - 0.8915 * r ** 2 + 0.6998 * r ** 3
        self.ktil = np.where(np.isfinite(k), k, 0.0)
        self.reset()

    def reset(self):
        n = len(self.gaps)
        self.umax = 0.0
        self.Fm = np.zeros(n)
        self.uxy = np.zeros(2)
        self.t = np.zeros((n, len(self.r), 2)) if self.mif else np.zeros((n, 2))
        self.a0 = np.zeros(n)

    # -- one asperity, normal direction -------------------------------------------------
    def plastic(self, d):
        """Flattening of an elastic plastic asperity (Ghaednia et al. 2019)."""
        R2, E2, C, sy, Et, E, dy = 2 * self.Re, 2 * self.Es, self.C, self.sy, self.Et, self.E, self.dy
        x = d / dy
        ae = np.sqrt(R2 * d / 2)
        B = 0.14 * np.exp(23 * sy / E2)
        ap = R2 * (np.pi * C * sy / (2 * E2)) * np.sqrt(x * (x / 1.9) ** B)
        ups = -2 * np.sqrt(E / sy) * (Et / E) ** (1 - ((d - dy) / 2) / R2) / (
            (4 - 3 * np.exp(-2 * np.sqrt(E / sy) * Et / E)) * (1 - Et / E))
        a = ae + (ap - ae) * np.exp(ups)
        H = 2.84 - 0.92 * (1 - np.cos(np.pi * a / R2))
        Fc = 4 / 3 * (R2 / E2) ** 2 * (C * np.pi * sy / 2) ** 3
        Fe = 4 / 3 * self.Es * np.sqrt(self.Re) * d ** 1.5
        Fp = Fc * (np.exp(-0.25 * x ** (5 / 12)) * x ** 1.5 + 4 * H / C * (1 - np.exp(-x ** (5 / 9) / 25)) * x)
        return Fp + (Fe - Fp) * (1 - np.exp(-3.3 * Et / E)), a

    def unload(self, d, dm, Fm):
        db = dm * (1 - Fm / (4 / 3 * self.Es * np.sqrt(self.Re) * dm ** 1.5))
        if d <= db or Fm <= 0:
            return 0.0, 0.0
        Rb = Fm ** 2 / ((4 / 3 * self.Es) ** 2 * (dm - db) ** 3)
        return 4 / 3 * self.Es * np.sqrt(Rb) * (d - db) ** 1.5, np.sqrt(Rb * (d - db))

    def normal(self, d, dm, Fm):
        y = 1.9 * self.dy
        if d > dm and d > y:
            f, a = self.plastic(d)
            return f, a, 'plastic'
        if d < y and dm < y:
            if d <= 0:
                return 0.0, 0.0, 'open'
            return 4 / 3 * self.Es * np.sqrt(self.Re) * d ** 1.5, np.sqrt(self.Re * d), 'elastic'
        f, a = self.unload(d, dm, Fm)
        return f, a, 'unload' if f > 0 else 'open'

    # -- tangential ---------------------------------------------------------------------
    def tang(self, j, uxy, fn, a):
        if not self.mif:
            f = self.t[j] + 8 * self.Gs * a * (uxy - self.uxy)
            f = np.clip(f, -self.mu * fn, self.mu * fn)
            return f, f
        t = np.zeros((len(self.r), 2))
        if fn > 0 and a > 0:
            R = a * self.r
            if self.a0[j] > 0:
                R0 = self.a0[j] * self.r
                for k in (0, 1):
                    t[:, k] = np.interp(R, R0, self.t[j][:, k], left=0.0, right=0.0)
            kt = 8 * self.Gs / (np.pi * a) * self.ktil
            tn = self.mu * 1.5 * fn / (np.pi * a * a) * np.sqrt(1 - self.r ** 2)
            t = np.clip(t + kt[:, None] * (uxy - self.uxy), -tn[:, None], tn[:, None])
        return 2 * np.pi * a * a * ((self.r * self.w) @ t), t

    def eval(self, u, normal=None):
        """Returns (f (3,), state to commit, info)."""
        n = len(self.gaps)
        f = np.zeros(3)
        Fm, tt, aa = np.zeros(n), np.zeros_like(self.t), np.zeros(n)
        info = dict(kinds=set(), amb=np.inf, fn=np.zeros(n), ft=np.zeros((n, 2)))
        for j in range(n):
            d, dm = u[2] - self.mgap - self.gaps[j], self.umax - self.mgap - self.gaps[j]
            if normal is None:
                fn, a, kind = self.normal(d, dm, self.Fm[j])
                for g in (abs(d - dm), abs(d - 1.9 * self.dy)):
                    if 0 < g:
                        info['amb'] = min(info['amb'], g)
            else:
                fn, a = normal(j, d)
                kind = 'cyc'
            ft, tt[j] = self.tang(j, u[:2], fn, a)
            f[2] += self.gw[j] * fn
            f[:2] += self.gw[j] * ft
            Fm[j], aa[j] = max(fn, self.Fm[j]), a
            info['kinds'].add(kind)
            info['fn'][j], info['ft'][j] = fn, ft
        return f, (u.copy(), Fm, tt, aa), info

    def commit(self, s):
        u, self.Fm, self.t, self.a0 = s
        self.uxy = u[:2]
        self.umax = max(self.umax, u[2])

    def cycle(self, u, u0, repeats=2):
        """Force history of the last repetition, all on the unloading curve of the largest approach."""
        self.reset()
        dm = u[:, 2].max() - self.mgap - self.gaps
        fm = [self.normal(d, -self.mgap - g, 0.0)[0] for d, g in zip(dm, self.gaps)]

        def nrm(j, d):
            return self.unload(d, dm[j], fm[j]) if fm[j] > 0 else (0.0, 0.0)
        self.uxy = np.array(u0, float)[:2]
        out = np.zeros((len(u), 3))
        slip = False
        for _ in range(repeats):
            for i in range(len(u)):
                out[i], s, info = self.eval(u[i], nrm)
                self.Fm, self.t, self.a0 = s[1:]
                self.uxy = u[i, :2]
                slip |= bool(np.any(np.abs(info['ft']) >= self.mu * info['fn'][:, None] * 0.999) and np.any(info['fn']))
        self.near = float(np.min(np.abs(dm - 1.9 * self.dy)))
        return out, slip
