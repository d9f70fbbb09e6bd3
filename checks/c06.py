"""C06: Hough functions against Laplace's tidal equations, an independent Ritz solution, the
associated Legendre limit, parity, normalisation and derivative consistency."""
import numpy as np
from scipy.special import lpmv

from vh import build
from vh.report import Check

ck = Check('C06', 'one case = (convention, l, m, spin, node count, eigenvalue guess); residuals '
           'of the momentum and continuity equations, of every derivative (independent global '
           'Chebyshev differentiation on both hemispheres) and of the eigenvalue (Legendre-Ritz '
           'solution for |spin| < 1) are the observations',
           assumptions=['spins for which 1 - (nu mu)^2 nearly vanishes at a node are skipped '
                        '(the collocation matrix is ill conditioned there)'])
build.setup(['cpp-numintegrator'])
from hough_function import HF, HNorm  # noqa: E402

rng = ck.rng()
GX, GW = np.polynomial.legendre.leggauss(240)


def ritz(nu, m, parity, nb=44):
    """Eigenvalues (negative) of the tidal operator in an associated Legendre basis."""
    am = abs(m)
    mu, w = GX, GW
    s2 = 1 - mu ** 2
    B, dB = [], []
    for l in range(am + parity, am + parity + 2 * nb, 2):
        p = lpmv(am, l, mu)
        pm = lpmv(am, l - 1, mu) if l - 1 >= am else np.zeros_like(mu)
        d = -(l * mu * p - (l + am) * pm) / s2
        n = np.sqrt((w * p * p).sum())
        B.append(p / n)
        dB.append(d / n)
    B, dB = np.array(B), np.array(dB)
    D = 1 - nu ** 2 * mu ** 2
    q = nu * m * (1 + nu ** 2 * mu ** 2) / D ** 2 - m ** 2 / (s2 * D)
    A = -(dB * (w * s2 / D)) @ dB.T + (B * (w * q)) @ B.T
    ev = np.linalg.eigvalsh(A)
    return np.sort(ev)[::-1]          # closest to zero first


def chebc(x, y):
    n = len(x)
    c = 2.0 / n * np.cos(np.outer(np.arange(n), np.arccos(x))) @ y
    c[0] /= 2
    return c


def ddmu(x, f, odd):
    """df/dmu where f * s^odd is a polynomial (times nothing else)."""
    s = np.sqrt(1 - x ** 2)
    g = np.polynomial.chebyshev.chebval(x, np.polynomial.chebyshev.chebder(chebc(x, f * s ** odd)))
    return (g + f * x / s) / s if odd else g


SIGN = {'prat': (1, 0), 'lee_saio_equivalent': (-1, 0), 'townsend': (-1, 1)}


def analyse(h, conv, l, m, nu, npts, wit, tag):
    mu = h.mu_range
    n = 2 * (npts // 2)
    ck.close(mu, -np.cos((np.arange(n) + 0.5) * np.pi / n), 'range-mu', 'mu range', wit,
             atol=1e-13)
    ck.close(h.thetas_range, np.arccos(mu), 'range-theta', 'theta range', wit, rtol=1e-12)
    s = np.sqrt(1 - mu ** 2)
    mo = abs(m) % 2
    R = {k: getattr(h, k) for k in ('hr_range', 'ht_range', 'hp_range', 'hrp_range',
                                    'hrpp_range', 'htp_range', 'hpp_range', 'hrp_range_theta',
                                    'hrpp_range_theta', 'htp_range_theta', 'hpp_range_theta')}
    if any(v is None or v.shape != mu.shape for v in R.values()):
        ck.violate('range-shape', 'a Hough function is missing or has the wrong length', wit)
        return
    H, T, P = R['hr_range'], R['ht_range'], R['hp_range']
    par = 1.0 if (l - abs(m)) % 2 == 0 else -1.0
    for name, sign in (('hr_range', par), ('ht_range', -par), ('hp_range', par),
                       ('hrp_range', -par), ('hrpp_range', par), ('htp_range', par),
                       ('hpp_range', -par), ('hrp_range_theta', -par),
                       ('hrpp_range_theta', par), ('htp_range_theta', par),
                       ('hpp_range_theta', -par)):
        v = R[name]
        ck.expect(np.abs(v - sign * v[::-1]).max() <= 1e-9 * np.abs(v).max(), f'parity-{name}',
                  'wrong equatorial parity', wit)
    sg, sf = SIGN[conv]
    t, p = T / s ** sf, sg * P / s ** sf
    dH = ddmu(mu, H, mo)
    lam_scale = 1 + abs(nu) + l * (l + 1)
    base = 1e-9 * n ** 2 * (1 + abs(nu)) ** 2 * lam_scale
    w4 = s ** 4

    def small(x, key, msg, scale, tol=base):
        e = np.abs(x).max()
        ck.expect(e <= tol * max(scale, 1e-3), f'{key}', f'{msg}: residual {e:.2e} '
                  f'(allowed {tol * max(scale, 1e-3):.1e})', wit)

    hs = max(np.abs(H).max(), np.abs(t * s).max(), np.abs(p * s).max())
    small((t + nu * mu * p) * s + s * s * dH, 'momentum-theta', 'latitudinal momentum', hs)
    small((p + nu * mu * t) * s - m * H, 'momentum-phi', 'azimuthal momentum', hs)
    # continuity determines the eigenvalue by projection; it must then hold pointwise
    C = -ddmu(mu, s * t, mo) * s * s - m * p * s
    lam = (C * H).sum() / (H * H * s * s).sum()
    small(C - lam * H * s * s, 'continuity', 'continuity equation', hs * lam_scale)
    small((R['hrp_range'] - dH) * w4, 'derivative-hr', 'dHr/dmu',
          np.abs(R['hrp_range'] * w4).max() + hs)
    dd = (ddmu(mu, R['hrp_range'] * s * s, mo) + 2 * mu * R['hrp_range']) / s ** 2
    small((R['hrpp_range'] - dd) * w4, 'derivative2-hr', 'd2Hr/dmu2',
          np.abs(R['hrpp_range'] * w4).max() + hs)
    to = mo if sf else 1 - mo
    small((R['htp_range'] - ddmu(mu, T, to)) * w4, f'derivative-ht-{conv}', 'dHt/dmu',
          np.abs(R['htp_range'] * w4).max() + hs)
    small((R['hpp_range'] - ddmu(mu, P, to)) * w4, f'derivative-hp-{conv}', 'dHp/dmu',
          np.abs(R['hpp_range'] * w4).max() + hs)
    for a in ('hr', 'ht', 'hp'):
        ck.close(R[f'{a}p_range_theta'], -s * R[f'{a}p_range'], f'theta-derivative-{a}',
                 'd/dtheta is not -sin(theta) d/dmu', wit, rtol=1e-10)
    ck.close(R['hrpp_range_theta'], s * s * R['hrpp_range'] - mu * R['hrp_range'],
             'theta-derivative2', 'second theta derivative', wit, rtol=1e-9)
    # strain functions of Lee (2012), whose azimuthal order is -m (as in hr_range_m)
    ck.close(h.hr_range_m, -m * H, 'tilde-mhr', '-m Hr', wit, rtol=1e-12)
    ck.close(h.theta_phi_hough_tilde, -m * T - mu * P, 'tilde-theta-phi',
             '-m Ht - mu Hp', wit, rtol=1e-10)
    ck.close(h.phi_phi_hough_tilde, (mu * T + m * P) / s, 'tilde-phi-phi',
             '(mu Ht + m Hp)/sin(theta)', wit, rtol=1e-9)
    if conv == 'lee_saio_equivalent':
        # horizontal divergence of the displacement: d(Ht)/dtheta + phi_phi = eigenvalue * Hr
        small((R['htp_range_theta'] + h.phi_phi_hough_tilde - lam * H) * w4, 'divergence',
              'horizontal divergence', hs * lam_scale + np.abs(R['htp_range_theta'] * w4).max())
    # normalisation and sign convention of the radial function
    ck.expect(abs(np.abs(H).max() - 1) <= 1e-12, 'normalisation', 'max |Hr| is not 1', wit)
    ck.expect(H[n // 2] >= -1e-12, 'sign', 'Hr is negative just north of the equator', wit)
    ck.observe('residuals', 20)
    return lam


def make(nu, l, m, npts, wit, **kw):
    h = None
    with ck.guard('hough-raised', witness=wit):
        h = HF(nu, l, m, npts=npts, **kw)
        h()
        ck.expect(h.l == l and h.m == m and h.k_grav == l - abs(m), 'labels', 'l, m or k', wit)
    return h


def singular(nu, npts):
    th = (np.arange(npts // 2) + 0.5) * np.pi / (2 * (npts // 2))
    return np.abs(1 - (np.real(nu) * np.cos(th)) ** 2).min() < 1e-3


# sub-inertial spins: independent eigenvalues
for i in range(ck.n(220, 3000)):
    m = int(rng.integers(-4, 5))
    l = abs(m) + int(rng.integers(0, 7))
    if l == 0:
        l = 1 + int(rng.integers(0, 4))
    nu = float(rng.uniform(-0.93, 0.93))
    npts = int(rng.choice([60, 80, 81, 100, 140]))
    conv = list(SIGN)[i % 3]
    parity = (l - m) % 2
    ref = ritz(nu, m, parity)
    ref = ref[ref < -1e-6]
    k = (l - abs(m) - parity) // 2
    if m == 0 and parity == 0:
        k -= 1                 # the constant (eigenvalue zero) is not a mode
    want = ref[k]
    wit = {'l': l, 'm': m, 'nu': nu, 'npts': npts, 'definition': conv}
    mode = i % 4
    guess = -want * (1 + rng.uniform(-0.02, 0.02))
    near = np.sort(np.abs(ref - -guess))
    if mode == 0:
        kw, target = {}, None
        d = np.abs(ref + l * (l + 1.0))
        o = np.argsort(d)
        if d[o[1]] - d[o[0]] < 0.02 * l * (l + 1):
            continue
        target = ref[o[0]]
    elif near[1] - near[0] < 0.05 * abs(want):
        continue
    else:
        target = want
        kw = [{'lmbd': guess}, {'lmbd': complex(guess, 0.3)}, {'lmbd': -guess,
                                                              'lmbd_adjust': False}][mode - 1]
    wit.update(lmbd=kw)
    if npts == 100 and mode == 2:
        nuc = complex(nu, 1e-4)
    else:
        nuc = nu
    h = make(nuc, l, m, npts, wit, definition=conv, **kw)
    if h is None:
        continue
    lam = analyse(h, conv, l, m, nu, npts, wit, 'sub')
    if lam is not None:
        ck.expect(abs(lam - target) <= 1e-6 * abs(target), 'eigenvalue',
                  f'eigenvalue {lam} instead of {target}', wit)
        ck.expect(h.nu == nu, 'spin-label', 'spin parameter not kept', wit)
    ck.case('spin<1', (l, m, round(nu, 9), npts, conv, mode), wit)
# super-inertial spins
for i in range(ck.n(150, 2000)):
    m = int(rng.integers(-3, 4))
    l = abs(m) + int(rng.integers(0, 4))
    if l == 0:
        l = 2
    nu = float(rng.uniform(1.02, 6.0) * rng.choice([-1, 1]))
    npts = int(rng.choice([140, 200]))
    if singular(nu, npts):
        continue
    conv = list(SIGN)[i % 3]
    wit = {'l': l, 'm': m, 'nu': nu, 'npts': npts, 'definition': conv}
    h = make(nu, l, m, npts, wit, definition=conv)
    if h is not None:
        ck.expect(np.isfinite(h.hr_range).all(), 'finite', 'Hr is not finite', wit)
        analyse(h, conv, l, m, nu, npts, wit, 'super')
    ck.case('spin>1', (l, m, round(nu, 9), npts, conv), wit)
# Rossby modes: eigenvalues between zero and about their limit for fast rotation, often below one
for i in range(ck.n(45, 600)):
    m = -int(rng.integers(1, 4))
    q = 1 + i % 2
    l = -m + q - 1
    crit = (q - m) * (q - m + 1) / -m
    nu = float(crit * rng.uniform(1.1, 2))
    npts = int(rng.choice([140, 200, 260]))
    if singular(nu, npts):
        continue
    flip = int(rng.choice([-1, 1]))
    top = (m / (2 * q + 1)) ** 2
    conv = list(SIGN)[i % 3]
    wit = {'l': l, 'm': flip * m, 'nu': flip * nu, 'npts': npts, 'definition': conv}
    h = make(flip * nu, l, flip * m, npts, wit, definition=conv, lmbd=.5 * top)
    if h is not None:
        lam = analyse(h, conv, l, flip * m, flip * nu, npts, wit, 'rossby')
        ck.expect(0 < -lam < 2 * top, 'rossby-eigenvalue', f'eigenvalue {lam} of a Rossby mode, about {top} for fast rotation', wit)
        ck.observe('Rossby mode')
    ck.case('Rossby', (l, flip * m, round(flip * nu, 9), npts, conv), wit)
# no rotation: associated Legendre functions
for m in range(-4, 5):
    for l in range(max(1, abs(m)), abs(m) + ck.n(6, 12)):
        for conv in SIGN:
            npts = int(rng.choice([60, 100, 200]))
            wit = {'l': l, 'm': m, 'nu': 0.0, 'npts': npts, 'definition': conv}
            h = make(0.0, l, m, npts, wit, definition=conv)
            if h is None:
                continue
            lam = analyse(h, conv, l, m, 0.0, npts, wit, 'zero')
            ck.expect(lam is not None and abs(lam + l * (l + 1)) <= 1e-6 * l * (l + 1),
                      'legendre-eigenvalue', f'eigenvalue {lam}', wit)
            y = lpmv(abs(m), l, h.mu_range)
            y = y / np.abs(y).max()
            y *= np.sign(y[len(y) // 2]) if y[len(y) // 2] else 1
            ck.close(h.hr_range, y, 'legendre', 'Hr is not the associated Legendre function', wit,
                     atol=1e-7)
            ck.case('legendre', (l, m, conv, npts))
# normalisation factors
for i in range(ck.n(40, 400)):
    n = 2 * int(rng.integers(200, 2000)) + 1
    mu = np.linspace(-1, 1, n)
    m = int(rng.integers(0, 4))
    l = m + int(rng.integers(0, 4))
    hr = lpmv(m, l, mu) * 10.0 ** rng.uniform(-6, 6) * float(rng.choice([-1, 1]))
    wit = {'l': l, 'm': m, 'n': n}
    with ck.guard('norm-raised', witness=wit):
        th, pa = int(rng.integers(1, 5)), bool(i % 2)
        f = HNorm.get_norm_factor('lee2012', mu, hr, th, pa)
        I = 2 * np.pi * np.trapezoid((f * hr) ** 2, mu) if hasattr(np, 'trapezoid') else \
            2 * np.pi * np.trapz((f * hr) ** 2, mu)
        ck.expect(abs(I - 1) <= 1e-9 and f > 0, 'norm-lee2012',
                  f'normalised function has squared norm {I}', wit)
        g = HNorm.get_norm_factor('PRAT2019', mu, hr)
        ck.expect(abs(np.abs(g * hr).max() - 1) <= 1e-12 and g > 0, 'norm-prat2019',
                  'normalised maximum is not one', wit)
    ck.case('norm', (l, m, n, i), wit)
ck.need('spin<1', 60)
ck.need('spin>1', 30)
ck.finish()
