"""Independent evaluation of mode energies and quadratic coupling coefficients: the strain tensors
of the three displacement fields are contracted numerically on the (x, mu) grid, straight from the
input dictionaries. Only the Hough functions are the repository's (property C06 covers them)."""
import numpy as np

from hough_function import HF


def trap(f, x):
    dx = np.diff(x).reshape((-1,) + (1,) * (f.ndim - 1))
    return np.sum((f[1:] + f[:-1]) * dx / 2, axis=0)


def cumtrap(f, x):
    return np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) * np.diff(x) / 2)])


class Mode:
    """Radial functions, Hough functions and energy of one mode."""

    def __init__(self, d, npts=200, use_complex=False, cut=np.s_[1:-1], rho=None):
        self.l, self.m = d['l'], d['m']
        self.G, self.M, self.R = d['G'], d['M_star'], d['R_star']
        self.rot = float(d['Omega_rot_dim'][-1])
        w0 = np.sqrt(self.G * self.M / self.R ** 3)
        f = float(np.real(d['freq'].ravel()[0]))
        self.w = f - (self.m * self.rot if d['freq_frame'] == b'INERTIAL' else 0.0)
        wd = self.w / w0                                 # dimensionless, corotating
        nu = 2 * self.rot / self.w
        lam = float(np.real(np.ravel(d['lambda'])[0]))
        pick = (lambda a: np.asarray(a)) if use_complex else (lambda a: np.real(a))
        x = self.x = np.real(d['x'])[cut]
        g = lambda k: np.real(d[k])[cut]                 # noqa: E731
        c1, As, V2, G1 = g('c_1'), g('As'), g('V_2'), g('Gamma_1')
        y1, y2 = pick(d['y_1'])[cut], pick(d['y_2'])[cut]
        s = np.sqrt(4 * np.pi) * x ** (self.l - 2.0)
        self.z1, z2 = s * y1, s * y2
        self.zh = z2 / (c1 * wd ** 2)
        self.div = (self.z1 - z2) * V2 * x ** 2 / G1
        self.d1 = self.div - 2 * self.z1 + lam * self.zh
        self.d2 = (1 - As / (c1 * wd ** 2)) * self.z1 + (As - 1) * self.zh
        self.G1, self.rho = G1, (g('rho') if rho is None else rho)
        h = HF(nu=nu, l=self.l, m=self.m, npts=npts, lmbd=np.ravel(d['lambda']).real[0],
               lmbd_adjust=True, definition='lee_saio_equivalent')
        h()
        mu = self.mu = np.asarray(h.mu_range)
        k = 1 / np.sqrt(2 * np.pi * trap(h.hr_range ** 2, mu))
        self.hr, self.ht, self.hp = k * h.hr_range, k * h.ht_range, k * h.hp_range
        self.dr, self.dt, self.dp = (k * h.hrp_range_theta, k * h.htp_range_theta,
                                     k * h.hpp_range_theta)
        self._energy()
        self.scale = np.sqrt(self.ref_energy / self.energy)
        for a in ('z1', 'zh', 'div', 'd1', 'd2'):
            setattr(self, a, getattr(self, a) * self.scale)

    def _energy(self):
        x, mu = self.x, self.mu
        ang = [2 * np.pi * trap(h ** 2, mu) for h in (self.hr, self.ht, self.hp)]
        w = self.rho * x ** 2
        rad = [trap(w * np.abs(x * z) ** 2, x) for z in (self.z1, self.zh)]
        kinetic = ang[0] * rad[0] + (ang[1] + ang[2]) * rad[1]
        coriolis = 2 * np.pi * trap(self.ht * self.hp * mu, mu) * rad[1]
        self.classic = kinetic
        self.energy = self.w * (2 * self.w * kinetic + 4 * self.rot * coriolis) * self.R ** 5
        self.ref_energy = self.G * self.M ** 2 / self.R

    def fields(self, mode='plain'):
        """Strain tensor, divergence and displacement on the grid. mode: plain, conj (complex
        conjugate of the field) or rule (only the azimuthal dependence conjugated)."""
        m, i = -self.m, 1j
        if mode == 'conj':
            m, i = -m, -i
        x, o = self.x, np.outer
        mu = self.mu
        s = np.sqrt(1 - mu ** 2)
        z1, zh = self.z1, self.zh
        T = np.empty((3, 3, len(x), len(mu)), complex)
        T[0, 0], T[0, 1], T[0, 2] = o(self.d1, self.hr), o(self.d2, self.ht), i * o(self.d2, self.hp)
        T[1, 0] = o(z1, self.dr) - o(zh, self.ht)
        T[1, 1] = o(zh, self.dt) + o(z1, self.hr)
        T[1, 2] = i * o(zh, self.dp)
        T[2, 0] = 1j * m * o(z1, self.hr) / s - i * o(zh, self.hp)
        T[2, 1] = (1j * m * o(zh, self.ht) - i * mu * o(zh, self.hp)) / s
        T[2, 2] = 1j * m * i * o(zh, self.hp) / s + o(z1, self.hr) + mu / s * o(zh, self.ht)
        xi = np.array([o(x * z1, self.hr), o(x * zh, self.ht), i * o(x * zh, self.hp)])
        return T, o(self.div, self.hr), xi


PAIRS = ((0, 1, 2), (0, 2, 1), (1, 2, 0))


def kappas(modes, struct, kinds=('plain',) * 3):
    """Four terms of the coupling coefficient and their cumulative radial profiles. struct: P, rho,
    g, drho (all on the cut grid), add (rho * dGamma1/dln(rho) at constant entropy, or 0)."""
    F = [md.fields(k) for md, k in zip(modes, kinds)]
    x, mu, R = modes[0].x, modes[0].mu, modes[0].R
    G1, G = modes[0].G1, modes[0].G
    P, rho, g = struct['P'], struct['rho'], struct['g']
    r = x * R
    g2 = 4 * np.pi * G * rho - 2 * g / r
    g3 = 4 * np.pi * G * struct['drho'] + 2 / r * (g / r - g2)

    def rad(f):
        return 2 * np.pi * trap(f.T, mu) * x ** 2
    k1 = sum(F[d][1] * np.einsum('ijxm,jixm->xm', F[a][0], F[b][0]) for a, b, d in PAIRS)
    k3 = (np.einsum('ijxm,jkxm,kixm->xm', F[0][0], F[1][0], F[2][0])
          + np.einsum('ijxm,jkxm,kixm->xm', F[0][0], F[2][0], F[1][0]))
    A = g2 / r - g / r ** 2
    k4 = F[0][2][0] * F[1][2][0] * F[2][2][0] * g3[:, None]
    for a, b, d in PAIRS:
        k4 = k4 + F[d][2][0] * (F[a][2][1] * F[b][2][1] + F[a][2][2] * F[b][2][2]) * A[:, None]
    f = [.5 * P * (G1 - 1) * rad(k1) * R ** 3,
         .5 * P * ((G1 - 1) ** 2 + struct.get('add', 0.0)) * rad(F[0][1] * F[1][1] * F[2][1]) * R ** 3,
         .5 * P * rad(k3) * R ** 3,
         -.5 * rho * rad(k4) * R ** 6]
    prof = np.array([cumtrap(q, x) for q in f])
    size = np.array([trap(np.abs(q), x) for q in f])
    return prof[:, -1], prof, size
