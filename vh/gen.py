"""Generators shared by checks: mode data that enters the frequency handler."""
import numpy as np


def mode_dicts(w, g, m, rot, rng, l=None, n_pg=None, units=b'RAD_PER_SEC', frame=b'INERTIAL',
               gmr=(6.674e-8, 6e33, 3e11)):
    """Adiabatic and nonadiabatic mode dictionaries of corotating frequencies w + i g (rad/s),
    shaped like the data read from GYRE detail files."""
    G, M, R = gmr
    ad, nad = [], []
    for i in range(len(w)):
        f = w[i] + (m[i] * rot if frame == b'INERTIAL' else 0.0)
        d = {'freq_units': units, 'freq_frame': frame, 'm': int(m[i]), 'G': G, 'M_star': M,
             'R_star': R, 'Omega_rot_dim': np.linspace(.5, 1, 4) * rot,
             'Omega_rot': np.linspace(.5, 1, 4) * rot / np.sqrt(G * M / R ** 3)}
        if l is not None:
            d['l'] = int(l[i])
        if n_pg is not None:
            d['n_pg'] = int(n_pg[i])
        ad.append({**d, 'freq': np.array([f], dtype=np.complex128)})
        nad.append({**d, 'freq': np.array([f + 1j * g[i]], dtype=np.complex128)})
    return ad, nad
