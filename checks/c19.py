"""C19: structure of polytropes against the stellar structure equations."""
import numpy as np
from scipy.integrate import cumulative_simpson, solve_ivp

from vh import build
from vh.report import Check

ck = Check('C19', 'one case = (index, truncation, grid, mass, radius, G, adiabatic exponent); the '
           'returned profiles are inserted into the structure equations in physical units')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.polytropic_computations import PaSi  # noqa: E402

rng = ck.rng()
NAMES = ('drho drho2 drho3 dp dp2 dp3 dgravpot dgravpot2 dgravpot3 p rho r v2 v u c1 as mr surfgrav '
         'brunt_n2 p0 rho0').split()
PI4 = 4 * np.pi


def lane_emden(n):
    """Solution object and surface (theta = 1e-9, or z = 25)."""
    z0 = 1e-3
    y0 = [1 - z0 ** 2 / 6 + n * z0 ** 4 / 120, -z0 / 3 + n * z0 ** 3 / 30]

    def stop(z, y):
        return y[0] - 1e-9
    stop.terminal = True
    s = solve_ivp(lambda z, y: [y[1], -max(y[0], 0.0) ** n - 2 / z * y[1]], (z0, 25.0), y0,
                  method='DOP853', rtol=1e-12, atol=1e-14, dense_output=True, events=stop)
    return s


def sample(s, z, n):
    th, dth = s.sol(np.maximum(z, 1e-3))
    c = z < 1e-3
    th[c], dth[c] = 1 - z[c] ** 2 / 6, -z[c] / 3 + n * z[c] ** 3 / 30
    return th, dth


for it in range(ck.n(150, 2500)):
    n = float(rng.choice([1.0, 1.5, 2.0, 3.0, 4.0])) if it % 3 == 0 else float(rng.uniform(.5, 4.5))
    s = lane_emden(n)
    zs = s.t[-1] * (1.0 if it % 4 == 0 else rng.uniform(.5, .98))
    k = int(rng.integers(200, 500))
    if it % 2:
        z = np.linspace(0, zs, k)
    else:
        z = zs * np.concatenate([[0], np.sort(rng.uniform(0, 1, k - 2)), [1]])
        z = .5 * z + .5 * np.linspace(0, zs, k)
    th, dth = sample(s, z, n)
    M, R = 10 ** rng.uniform(32, 36), 10 ** rng.uniform(9, 13)
    G = 6.6743e-8
    if it % 5 == 0:
        M, R, G = 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-1, 1), float(rng.uniform(.5, 2))
    gam = float(rng.uniform(1.2, 2)) * np.ones_like(z)
    if it % 7 == 0:
        gam = gam + .1 * np.sin(z)
    d = {'n_poly': n if it % 6 else np.array([n]), 'z': z, 'theta': th, 'dtheta': dth,
         'Gamma_1': gam, 'G': G}
    keep = {q: np.array(v) for q, v in d.items()}
    wit = dict(n=n, zs=zs, k=k, M=M, R=R, G=G, array_n=it % 6 == 0)
    with ck.guard('raised', witness=wit), np.errstate(all='ignore'):
        p = PaSi([d], M, R).property_dict
        ck.expect(set(NAMES) <= set(p), 'names', 'quantities are missing', sorted(p))
        ck.expect(all(np.array_equal(keep[q], d[q]) for q in d), 'modified', 'input was modified', wit)
        v = {q: np.asarray(p[q], dtype=float) for q in NAMES}
        if it % 6 == 0:
            v = {q: (a.reshape(-1)[0] if q in ('p0', 'rho0') and a.size == 1 else a)
                 for q, a in v.items()}
        r, rho, P, m, g = v['r'], v['rho'], v['p'], v['mr'], v['dgravpot']
        i = slice(1, None)
        inn = slice(1, -1)

        def eq(got, want, key, msg, rtol=1e-9, sl=i, scale=None):
            got, want = np.broadcast_to(got, z.shape)[sl], np.broadcast_to(want, z.shape)[sl]
            sc = np.max(np.abs(want)) if scale is None else scale
            # pointwise relative where the values are not the result of cancellation
            ck.close(got, want, key, msg, wit, rtol=rtol, scale=sc)
        # surface: the requested mass and radius; grid
        ck.close(r[-1], R, 'radius', 'surface radius', wit, rtol=1e-9)
        ck.close(m[-1], M, 'mass', 'surface mass', wit, rtol=1e-12)
        eq(r / R, z / zs, 'grid', 'radius is not proportional to z', sl=slice(None))
        # polytropic relation, central values
        ck.close(rho[0], v['rho0'], 'rho0', 'central density', wit, rtol=1e-12)
        ck.close(P[0], v['p0'], 'p0', 'central pressure', wit, rtol=1e-12)
        eq(P / v['p0'], (rho / v['rho0']) ** (1 + 1 / n), 'polytropic', 'P is not rho^(1+1/n)',
           sl=slice(None))
        # mean density fixes the central density: the mass of the sphere is M
        ms = PI4 * cumulative_simpson(r ** 2 * rho, x=r, initial=0)
        eq(ms, m, 'mass-equation', 'mass is not the integral of the density', rtol=5e-4)
        # Poisson: g is G m / r^2, and the derivatives follow from the equations
        g_ = G * m[1:] / r[1:] ** 2
        ck.close(g[1:], g_, 'gravity', 'gravity is not G m / r^2', wit, rtol=1e-9)
        ck.close(v['surfgrav'][1:], g_, 'surfgrav', 'local gravity', wit, rtol=1e-9)
        ck.close(g[0], 0.0, 'gravity-centre', 'central gravity', wit, atol=1e-12 * np.max(g_))
        rr = np.where(r > 0, r, 1.0)
        g2 = np.where(r > 0, PI4 * G * rho - 2 * g / rr, PI4 * G * v['rho0'] / 3)
        eq(v['dgravpot2'], g2, 'gravity-2', 'second derivative of the potential', sl=slice(None),
           rtol=1e-8)
        # hydrostatic equilibrium and the density derivative along the polytropic relation
        dP = -rho * g
        eq(v['dp'], dP, 'hydrostatic', 'pressure gradient is not -rho g', sl=slice(None))
        dr1 = np.where(P > 0, rho * dP / P * n / (n + 1), 0.0)
        eq(v['drho'], dr1, 'drho', 'density gradient', sl=inn)
        g3 = PI4 * G * v['drho'] - 2 * g2 / rr + 2 * g / rr ** 2
        far = r > .02 * R
        far[-1] = False
        eq(v['dgravpot3'], g3, 'gravity-3', 'third derivative of the potential', sl=far, rtol=1e-7)
        P2 = -v['drho'] * g - rho * g2
        eq(v['dp2'], P2, 'dp2', 'second pressure derivative', sl=inn)
        if it % 4:          # away from the surface singularities of the density
            L1 = dP / P * n / (n + 1)                              # dln(rho)/dr
            L2 = n / (n + 1) * (P2 / P - (dP / P) ** 2)
            P3 = -v['drho2'] * g - 2 * v['drho'] * g2 - rho * v['dgravpot3']
            L3 = n / (n + 1) * (P3 / P - 3 * P2 * dP / P ** 2 + 2 * (dP / P) ** 3)
            eq(v['drho2'], rho * (L2 + L1 ** 2), 'drho2', 'second density derivative',
               sl=slice(None), rtol=1e-8)
            eq(v['dp3'], P3, 'dp3', 'third pressure derivative', sl=far, rtol=1e-8)
            eq(v['drho3'], rho * (L3 + 3 * L1 * L2 + L1 ** 3), 'drho3', 'third density derivative',
               sl=far, rtol=1e-7)
            # the returned derivatives against differences of the returned profiles
            if it % 2:
                for lo, hi in (('p', 'dp'), ('dp', 'dp2'), ('dp2', 'dp3'), ('rho', 'drho'),
                               ('drho', 'drho2'), ('drho2', 'drho3'), ('dgravpot', 'dgravpot2'),
                               ('dgravpot2', 'dgravpot3')):
                    num = np.gradient(v[lo], r, edge_order=2)
                    ck.close(num[2:-2], v[hi][2:-2], f'difference-{hi}', f'{hi} is not the '
                             f'derivative of {lo}', wit, rtol=6e-2)
                    ck.observe('difference')
        # structure functions
        core = slice(1, -1)
        V = r * rho * g / P
        eq(v['v'], V, 'V', 'V is not -dlnP/dlnr', sl=core, scale=V[core])
        ck.close(v['v'][0], 0.0, 'V-centre', 'central V', wit, atol=1e-12)
        x2 = (r / R) ** 2
        eq(v['v2'], np.where(x2 > 0, V / np.where(x2 > 0, x2, 1), 0), 'V2', 'V_2 is not V/x^2',
           sl=core, rtol=1e-8, scale=(V / x2)[core])
        eq(v['u'], PI4 * r ** 3 * rho / np.where(m > 0, m, 1), 'U', 'U is not dlnm/dlnr', sl=core,
           rtol=1e-8)
        eq(v['c1'], (r / R) ** 3 * M / np.where(m > 0, m, 1), 'c1', 'c_1', sl=i, rtol=1e-8,
           scale=((r / R) ** 3 * M / np.where(m > 0, m, 1))[1:])
        As = dP * r / (gam * P) - v['drho'] * r / rho
        eq(v['as'], As, 'As', 'A* is not dlnP/dlnr/Gamma_1 - dlnrho/dlnr', sl=core,
           scale=np.abs(V[core]) + np.abs(As[core]))
        eq(v['brunt_n2'], g * As / rr, 'N2', 'buoyancy frequency is not g A*/r', sl=core, rtol=1e-8,
           scale=np.abs((g * V / rr)[core]))
        ck.observe('centre')
    ck.case('polytrope', (it, n, k))

# scaling: structure depends on mass and radius only through the dimensions
DIM = {'drho': (1, -4), 'drho2': (1, -5), 'drho3': (1, -6), 'dp': (2, -5), 'dp2': (2, -6),
       'dp3': (2, -7), 'dgravpot': (1, -2), 'dgravpot2': (1, -3), 'dgravpot3': (1, -4), 'p': (2, -4),
       'rho': (1, -3), 'r': (0, 1), 'v2': (0, 0), 'v': (0, 0), 'u': (0, 0), 'c1': (0, 0),
       'as': (0, 0), 'mr': (1, 0), 'surfgrav': (1, -2), 'brunt_n2': (1, -3), 'p0': (2, -4),
       'rho0': (1, -3)}
for it in range(ck.n(40, 600)):
    n = float(rng.uniform(.5, 4.5))
    s = lane_emden(n)
    z = np.linspace(0, s.t[-1] * rng.uniform(.5, .98), int(rng.integers(10, 80)))
    th, dth = sample(s, z, n)
    d = {'n_poly': n, 'z': z, 'theta': th, 'dtheta': dth, 'Gamma_1': 5 / 3 * np.ones_like(z),
         'G': 6.6743e-8}
    M, R = 10 ** rng.uniform(32, 36), 10 ** rng.uniform(9, 13)
    a, b = 10 ** rng.uniform(-2, 2, 2)
    with ck.guard('raised-scaling', witness=(n, M, R, a, b)), np.errstate(all='ignore'):
        p, q = PaSi([d], M, R).property_dict, PaSi([d, {}, None], a * M, b * R).property_dict
        for k, (i, j) in DIM.items():
            u, w = np.asarray(p[k]) * a ** i * b ** j, np.asarray(q[k])
            fin = np.isfinite(u)
            ck.expect(np.array_equal(fin, np.isfinite(w)), f'scaling-{k}', 'undefined elsewhere', n)
            ck.close(w[fin] if w.ndim else w, u[fin] if u.ndim else u, f'scaling-{k}',
                     f'{k} does not scale with mass and radius', (n, a, b), rtol=1e-10)
    ck.case('scaling', (it, n))
ck.need('centre', 100)
ck.need('difference', 100)
ck.finish()
