"""Synthetic stars for the coupling checks: truncated polytropes, oscillation eigenfunctions that
solve the (Cowling, traditional-approximation) equations, in the dictionaries AESolver reads."""
import numpy as np
from scipy.integrate import solve_ivp


class Polytrope:
    """Lane-Emden polytrope cut at a fraction of its surface, so that everything stays finite."""

    def __init__(self, n=3.0, gamma=5 / 3, cut=0.97, npts=300, M=6e33, R=3e11, G=6.6743e-8,
                 grid='uniform', rng=None):
        self.n, self.gamma, self.M, self.R, self.G = n, gamma, M, R, G

        def rhs(z, y):
            return [y[1], -np.sign(y[0]) * abs(y[0]) ** n - 2 / z * y[1]]
        z0 = 1e-4
        y0 = [1 - z0 ** 2 / 6 + n * z0 ** 4 / 120, -z0 / 3 + n * z0 ** 3 / 30]

        def stop(z, y):
            return y[0] - 1e-6
        stop.terminal = True
        s = solve_ivp(rhs, (z0, 60.0), y0, method='DOP853', rtol=1e-12, atol=1e-14,
                      dense_output=True, events=stop)
        zs = s.t[-1]
        self.zt = cut * zs
        if grid == 'uniform':
            x = np.linspace(0, 1, npts)
        elif grid == 'quadratic':
            x = np.linspace(0, 1, npts) ** 1.3
        else:
            x = np.concatenate([[0], np.sort(rng.uniform(0.004, 0.996, npts - 2)), [1]])
            x = np.linspace(0, 1, npts) * .7 + x * .3
        self.x = x
        self._le = s.sol
        z = np.where(x * self.zt < z0, z0, x * self.zt)
        th, dth = s.sol(z)
        c = x * self.zt < z0
        zc = x[c] * self.zt
        th[c], dth[c] = 1 - zc ** 2 / 6, -zc / 3
        self.z, self.theta, self.dtheta = x * self.zt, th, dth
        st = self.structure(x)
        for k, v in st.items():
            setattr(self, k, v)
        self.alpha = R / self.zt
        mu = -self.zt ** 2 * self._le(self.zt)[1]
        self.rho0 = M / (4 * np.pi * self.alpha ** 3 * mu)
        self.P0 = 4 * np.pi * G * self.alpha ** 2 * self.rho0 ** 2 / (n + 1)
        self.rho = self.rho0 * th ** n
        self.P = self.P0 * th ** (n + 1)
        self.r = x * R
        self.M_r = M * (-self.z ** 2 * dth) / mu
        with np.errstate(all='ignore'):
            self.g = np.where(x > 0, G * self.M_r / self.r ** 2, 0.0)
            self.N2 = np.where(x > 0, self.g * self.As / self.r, 0.0)
        self.w0 = np.sqrt(G * M / R ** 3)

    def structure(self, x):
        z = np.maximum(x * self.zt, 1e-3)
        th, dth = self._le(z)
        dts = self._le(self.zt)[1]
        n = self.n
        with np.errstate(all='ignore'):
            V = -(n + 1) * z * dth / th
            V2 = V / (z / self.zt) ** 2
            V = V2 * x ** 2
            U = -z * th ** n / dth
            c1 = (z / self.zt) * dts / dth
            As = V * (n / (n + 1) - 1 / self.gamma)
        return dict(V_2=V2, U=U, c_1=c1, As=As)

    def eigen(self, l, lam, w):
        """y_1, y_2 of the regular solution for dimensionless corotating frequency w."""
        le = (-1 + np.sqrt(1 + 4 * lam)) / 2

        def rhs(lx, y):
            x = np.exp(lx)
            s = self.structure(x)
            vg = s['V_2'] * x ** 2 / self.gamma
            cw = s['c_1'] * w * w
            return [(vg - 1 - l) * y[0] + (lam / cw - vg) * y[1],
                    (cw - s['As']) * y[0] + (s['As'] - s['U'] + 3 - l) * y[1]]
        x0 = 0.3 * self.x[1]
        c0 = self.structure(np.array(x0))['c_1'] * w * w
        sc = x0 ** (le - l)
        sol = solve_ivp(rhs, (np.log(x0), 0.0), [le / c0 * sc, sc], method='DOP853', rtol=1e-11,
                        atol=1e-14, dense_output=True)
        xs = np.maximum(self.x, x0)
        y = sol.sol(np.log(xs))
        y[0, self.x < x0], y[1, self.x < x0] = 0.0, 0.0
        y /= np.max(np.abs(y * xs ** (l - 1)))
        return y

    def mode_dict(self, l, m, lam, w, y, rot, n_pg=-10, nad=0.0, units=b'RAD_PER_SEC',
                  frame=b'INERTIAL', rng=None, imag=0.0):
        """Dictionary of a mode with dimensionless corotating frequency w (rotation in rad/s)."""
        x = self.x
        y1, y2 = y
        with np.errstate(all='ignore'):
            xi_r = np.where(x > 0, y1 * x ** float(l - 1), 0.0)
            xi_h = np.where(x > 0, y2 * x ** float(l - 1) / (self.c_1 * w * w), 0.0)
        f = w * self.w0 + (m * rot if frame == b'INERTIAL' else 0.0)
        one = np.ones_like(x)
        spin = np.append(1.3 - .6 * x[:-1] ** 2, 1)      # the formalism uses that of the surface
        lagL = (one * 0.3 * xi_r).astype(np.complex128)
        d = {'n': np.array([[len(x)]]), 'l': int(l), 'm': int(m), 'n_pg': int(n_pg),
             'n_p': 0, 'n_g': int(-n_pg), 'x': x, 'y_1': y1 + imag * 1j * y1[::-1],
             'y_2': y2 + imag * 1j * y2, 'y_3': one * 0j, 'y_4': one * 0j,
             'omega': np.array([[w + 0j]]), 'freq': np.array([[f + 1j * nad]]),
             'freq_units': units, 'freq_frame': frame, 'l_i': 1.0 + 0j,
             'lambda': np.array([lam + 0j]), 'xi_r': xi_r + 0j, 'xi_h': xi_h + 0j,
             'xi_r_dim': xi_r * self.R + 0j, 'xi_h_dim': xi_h * self.R + 0j,
             'eul_phi': one * 0j, 'deul_phi': one * 0j, 'lag_L': lagL, 'lag_L_dim': lagL * 1e37,
             'M_star': self.M, 'R_star': self.R, 'L_star': 1e37, 'G': self.G,
             'V_2': self.V_2, 'As': self.As, 'U': self.U, 'c_1': self.c_1,
             'Gamma_1': one * self.gamma, 'Omega_rot': spin * rot / self.w0,
             'Omega_rot_dim': spin * rot, 'M_r': self.M_r, 'P': self.P, 'rho': self.rho,
             'T': self.P / self.rho}
        return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}

    def profile(self, add=None):
        """MESA-like profile (surface first)."""
        d = {'radius': self.r[::-1].copy(), 'brunt_N2': self.N2[::-1].copy(),
             'gamma_1_adDer': np.zeros_like(self.x), 'num_zones': len(self.x),
             'version': 'synthetic'}
        if add is not None:
            d['gamma_1_adDer'] = add[::-1].copy()
        return d
