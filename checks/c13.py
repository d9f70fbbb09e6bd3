"""C13: stationary amplitudes, phases and thresholds against the amplitude equations."""
from types import SimpleNamespace as NS

import numpy as np

from vh import build, gen
from vh.amplitude import daughters_growth, rhs
from vh.report import Check

ck = Check('C13', 'one case = one triad (frequencies, rates, coupling, eigenfunction surface values, '
           'observer) solved; residuals of the amplitude equations at the reported point observed')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.pre_checks import PreThreeQuad  # noqa: E402
from aesolver.stationary_solving import ThreeModeStationary  # noqa: E402

rng = ck.rng()


def one():
    req = str(rng.choice(['RAD_PER_SEC', 'CPD', 'HZ', 'UHZ']))
    w2, w3 = 10 ** rng.uniform(-5.5, -4, size=2)
    sc = min(w2, w3)
    gam = sc * 10 ** rng.uniform(-6, -3)
    g = gam * np.array([1., -1, -1]) * 10 ** rng.uniform(-1.5, 1.5, size=3)
    kind = rng.random()
    if kind < .25:
        g = np.abs(g) * rng.choice([-1, 1], size=3)        # any kind of triad
    elif kind < .6:
        g[1] -= abs(g[0])                                    # damping wins
    delta = gam * 10 ** rng.uniform(-2, 2) * rng.choice([-1, 1])
    w = np.array([w2 + w3 + delta, w2, w3])
    m23 = rng.integers(-2, 3, size=2)
    m = [int(m23.sum()), *map(int, m23)]
    k = [int(x) for x in rng.integers(0, 3, size=3)]
    if rng.random() < .85:
        k[0] += sum(k) % 2
    if rng.random() < .1:
        m[0] += 1
    ell = [max(1, abs(a)) + b if abs(a) else b + 2 * (b == 0) for a, b in zip(m, k)]
    k = [a - abs(b) for a, b in zip(ell, m)]
    n = [-10, -21, -23]
    rot = 10 ** rng.uniform(-6, -4.5)
    ad, nad = gen.mode_dicts(w, g, m, rot, rng, ell, n,
                             frame=[b'INERTIAL', b'COROT_I'][int(rng.integers(2))])
    wit = dict(req=req, w=w, g=g, m=m, k=k, delta=delta)
    fh = FH(*ad, my_freq_units=req)
    fh.set_mode_nonadiabatic_info(*nad)
    W, G, D = (np.array(fh.corot_mode_omegas, float), np.array(fh.driving_rates, float),
               float(np.ravel(fh.detuning)[0]))
    acc = 1e-15 * (w.sum() + rot * 10) / abs(delta) + 1e-15 * (w.sum() + rot * 10) / np.abs(g).min()
    eta = 10 ** rng.uniform(-2, 6) * rng.choice([-1, 1])
    nm = int(rng.integers(8, 60))
    mu = np.linspace(1, -1, nm) if rng.random() < .0 else np.linspace(-1, 1, nm)
    cub = rng.normal(size=(3, 4))                   # the spline reproduces cubics
    hr = [np.polyval(c, mu) for c in cub]
    lum, xir = rng.normal(size=3) + 1j * rng.normal(size=3), rng.normal(size=3) + 1j * rng.normal(size=3)
    tk, ek = rng.normal(size=3), rng.normal(size=3)
    if rng.random() < .2:
        tk, xir = tk * 0, xir.real.astype(complex)
    inc = None if rng.random() < .3 else float(rng.uniform(0.02, np.pi / 2))
    peri = None if rng.random() < .3 else float(rng.uniform(0, 2 * np.pi))
    pre = bool(PreThreeQuad(ad, fh).check())
    hyp = bool(rng.integers(2))
    cpl = NS(eta_lee_coupling_coefficient=eta, _mu_values=mu, _hr_mode_1=hr[0], _hr_mode_2=hr[1],
             _hr_mode_3=hr[2], _m_mode_1=m[0], _m_mode_2=m[1], _m_mode_3=m[2])
    solver = NS(_coupler=cpl if pre else None, _lag_var_surf_lum=lum, _xir_terms_norm=xir,
                _tk_disc_integrals=tk, _ek_disc_integrals=ek)
    parametric = g[0] > 0 and g[1] < 0 and g[2] < 0
    q = D / G.sum()
    ck.case('parametric' if parametric else 'other', wit)
    ck.observe('equilibrated' if pre else 'not equilibrated')
    with ck.guard('raised', witness=wit):
        ts = ThreeModeStationary(pre, fh, hyp, solver, spin_inclination=inc, periastron_arg=peri)
        out = ts()
        again = ThreeModeStationary(pre, fh, hyp, solver, spin_inclination=inc, periastron_arg=peri)()
        same = set(out) == set(again) and all(np.array_equal(np.asarray(out[x]), np.asarray(again[x]))
                                              for x in out)
        ck.expect(same, 'repeat', 'second evaluation differs', wit)
        ck.close(out['linear driving rates'], G, 'rates', 'driving rates', wit)
        ck.close(out['gamma'], G.sum(), 'gamma', 'sum of rates', wit, scale=np.abs(G).sum())
        ck.close(out['detunings'], D, 'detuning', 'detuning', wit)
        ck.close(out['q factor'], D / G.sum(), 'q', 'q factor', wit, rtol=1e-9)
        ck.close(out['critical q factor'], D / (G[1] + G[2]), 'qcrit', 'critical q factor', wit, rtol=1e-9)
        ck.expect(out['hyperbolic'] == hyp, 'hyperbolic', 'hyperbolicity flag altered', wit)
        ck.expect(bool(out['linearly stable']) == pre, 'flag', 'equilibrated flag', wit)
        if not pre:
            for x in ('equilibrium amplitudes', 'surface flux variations'):
                ck.expect(np.shape(out[x]) == (3,) and not np.any(out[x]), 'not-equilibrated',
                          f'{x} of a triad without stable stationary state', wit)
            for x in ('critical parent amplitude', 'stationary relative phase',
                      'stationary relative luminosity phase'):
                ck.expect(out[x] is None, 'not-equilibrated', f'{x} is not missing', wit)
            return
        ck.expect(parametric and G.sum() < 0, 'pre-accepts', 'a triad without a stable stationary '
                  'state is reported as equilibrated', wit)
        a = np.array(out['equilibrium amplitudes'], float)
        phi = float(out['stationary relative phase'])
        ck.expect(np.all(a > 0), 'positive', f'amplitudes {a}', wit)
        res = np.abs(rhs(a, phi, W, G, D, abs(eta)))
        res2 = np.abs(rhs(a, phi, W, G, D, -abs(eta)))
        scale = np.array([abs(G[0]) * a[0], abs(G[1]) * a[1], abs(G[2]) * a[2], abs(D) + np.abs(G).sum()])
        r = min((res / scale).max(), (res2 / scale).max())
        ck.observe('fixed point residual')
        ck.expect(r < 1e-8 + 100 * acc, 'fixed-point',
                  f'amplitude equations not stationary: relative rates {res / scale}', wit)
        ac = float(out['critical parent amplitude'])
        lo, hi = (daughters_growth(ac * f, W, G, D, eta) for f in (1 - 1e-4, 1 + 1e-4))
        ck.observe('threshold')
        ck.expect(ac > 0 and lo < 0 < hi, 'threshold',
                  f'daughter growth rates {lo}, {hi} just below / above the threshold amplitude', wit)
        # surface quantities
        obs = np.ones(3) if inc is None else np.array([np.polyval(c, np.cos(inc)) for c in cub])
        want = a * np.abs(tk * lum - ek * xir) * obs
        ck.close(out['surface flux variations'], want, 'flux', 'surface flux variations', wit, rtol=1e-8,
                 scale=a * np.abs(tk * lum - ek * xir) * np.array([np.abs(c).sum() for c in cub]) + 1e-300)
        if not (peri is None):
            az = m[0] - m[1] - m[2]
            ph = phi + az * np.mod(np.pi / 2 - peri, 2 * np.pi)
        else:
            ph = phi
        ck.close(out['stationary relative luminosity phase'], ph, 'lum-phase', 'luminosity phase', wit,
                 scale=10., rtol=1e-10)
    # invariances: the sign of the coupling and the unit of time do not matter, and the
    # amplitudes scale with the inverse of the coupling
    with ck.guard('raised-scaled', witness=wit):
        f = float(10 ** rng.uniform(-2, 2) * rng.choice([-1, 1]))
        cpl.eta_lee_coupling_coefficient = eta * f
        b = ThreeModeStationary(True, fh, hyp, solver)()
        ck.close(b['equilibrium amplitudes'], a / abs(f), 'coupling-scale', 'amplitude scaling', wit)
        ck.close(b['critical parent amplitude'], ac / abs(f), 'coupling-scale', 'threshold scaling', wit)
        cpl.eta_lee_coupling_coefficient = eta
        fh2 = FH(*ad, my_freq_units='HZ' if req != 'HZ' else 'RAD_PER_SEC')
        fh2.set_mode_nonadiabatic_info(*nad)
        b = ThreeModeStationary(True, fh2, hyp, solver)()
        ck.close(b['equilibrium amplitudes'], a, 'unit', 'amplitudes depend on the unit of time', wit, rtol=1e-8 + 100 * acc)
        # exchanging the daughters exchanges their amplitudes
        p = [0, 2, 1]
        fh3 = FH(*[ad[i] for i in p], my_freq_units=req)
        fh3.set_mode_nonadiabatic_info(*[nad[i] for i in p])
        b = ThreeModeStationary(True, fh3, hyp, solver)()
        ck.close(b['equilibrium amplitudes'], a[p], 'exchange', 'daughters exchanged', wit, rtol=1e-8 + 100 * acc)
        ck.close(b['critical parent amplitude'], ac, 'exchange', 'threshold after exchange', wit, rtol=1e-8 + 100 * acc)
        # complex coupling coefficients enter by their modulus
        cpl.eta_lee_coupling_coefficient = eta * np.exp(1j * rng.uniform(0, 6))
        b = ThreeModeStationary(True, fh, hyp, solver)()
        ck.close(b['equilibrium amplitudes'], a, 'complex', 'complex coupling coefficient', wit)


for _ in range(ck.n(1500, 20000)):
    one()
ck.need('equilibrated', 100)
ck.need('not equilibrated', 100)
ck.finish()
