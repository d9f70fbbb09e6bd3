"""C21: angular integrals against the composite rule, closed-form integrals, Gaunt coefficients and
spectral quadrature of real Hough functions; selection rule, order and parity monitors."""
import itertools

import numpy as np
from scipy.special import gammaln, lpmv

from vh import build
from vh.report import Check

ck = Check('C21', 'one case = (grid, functions, descriptor list, conjugation, sine/cosine powers, '
           'rule, threads); the oracle is the composite trapezoidal sum where that is the rule, '
           'closed-form or spectral quadrature within the truncation error elsewhere')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.angular_integration.rotating_tar_angular import HFHandler, HI  # noqa: E402
from hough_function import HF  # noqa: E402

rng = ck.rng()


class Obj:
    pass


def grid(kind, n):
    if kind == 'chebyshev':
        return np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
    if kind == 'uniform':
        return np.linspace(-.999999, .999999, n)
    if kind == 'legendre':
        return np.polynomial.legendre.leggauss(n)[0]
    x = np.sort(rng.uniform(-1, 1, n))
    return x[np.concatenate([[True], np.diff(x) > 1e-9])]


def trap(f, x):
    return float(np.sum(np.diff(x) * (f[1:] + f[:-1]) / 2))


def fejer(f):
    """Spectral quadrature of samples at the Chebyshev nodes (ascending mu)."""
    n = len(f)
    th = np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n)
    k = np.arange(1, n // 2 + 1)
    w = 2 / n * (1 - 2 * np.sum(np.cos(2 * np.outer(th, k)) / (4 * k ** 2 - 1), axis=1))
    return float(w @ f)


# ---- the composite rule on arbitrary data, all options
for it in range(ck.n(220, 3000)):
    kind = ('chebyshev', 'uniform', 'legendre', 'random')[it % 4]
    x = grid(kind, int(rng.integers(2, 90)))
    k = int(rng.integers(1, 5))
    o = Obj()
    o._mu_values = x
    names = [f'_f_mode_{i}' for i in range(k)]
    for nm in names:
        setattr(o, nm, rng.normal(size=len(x)))
    div, mul = bool(rng.integers(2)), bool(rng.integers(2))
    par, thr = bool(rng.integers(2)), int(rng.integers(1, 9))
    prot = bool(rng.integers(2))
    keep = {nm: getattr(o, nm).copy() for nm in names + ['_mu_values']}
    f = np.prod([keep[nm] for nm in names], axis=0)
    if mul:
        f = f * x
    if div:
        f = f / np.sqrt(1 - x ** 2)
    wit = dict(kind=kind, x=x, k=k, div=div, mul=mul, par=par, thr=thr, prot=prot)
    with ck.guard('raised', witness=wit):
        got = HI.quadratic_angular_integral(
            o, list(names), div_by_sin=div, mul_with_mu=mul, nr_omp_threads=thr,
            use_parallel=par, cheby_blow_up_protection=prot, cheby_blow_up_factor=1e30)
        scale = 2 * np.pi * trap(np.abs(f), x) + 1e-300
        ck.close(got, 2 * np.pi * trap(f, x), 'composite', 'angular integral is not 2 pi times the '
                 'composite trapezoidal sum', wit, rtol=1e-12, scale=scale)
        perm = [names[i] for i in rng.permutation(k)]
        ck.close(HI.quadratic_angular_integral(o, perm, div_by_sin=div, mul_with_mu=mul), got,
                 'order', 'order of the functions changes the integral', wit, rtol=1e-12, scale=scale)
    ck.expect(all(np.array_equal(keep[nm], getattr(o, nm)) for nm in keep), 'modified',
              'the integrand arrays were modified', wit)
    ck.case('composite', (kind, len(x), k, div, mul, par, thr, it))

# ---- azimuthal selection rule and conjugations
fs = [np.ones(9) * 2.0, np.ones(9), np.ones(9)]
o = Obj()
o._mu_values = grid('chebyshev', 9)
o.a, o.b, o.c = fs
FULL = 2 * np.pi * 2 * trap(np.ones(9), o._mu_values)
triples = list(itertools.product(range(-3, 4), repeat=3))
if not ck.thorough:
    triples = [t for t in triples if abs(sum(t)) < 3 or rng.random() < .5]
for ms in triples:
    for conj in [None, True, False, *itertools.product((True, False), repeat=3)]:
        cc = (False,) * 3 if conj is None else (conj, False, False) if isinstance(conj, bool) else conj
        allowed = sum(-m if c else m for m, c in zip(ms, cc)) == 0
        wit = dict(m=ms, conj=conj)
        with ck.guard('selection-raised', witness=wit):
            got = HI.quadratic_angular_integral(o, ['a', 'b', 'c'], list(ms), False, conj)
            if allowed:
                ck.close(got, FULL, 'selection-allowed', 'azimuthally allowed integral wrong', wit,
                         rtol=1e-12)
            else:
                ck.expect(got == 0.0, 'selection-forbidden',
                          f'azimuthally forbidden integral is {got}', wit)
            if rng.random() < .1:
                ck.close(HI.quadratic_angular_integral(o, ['a', 'b', 'c'], list(ms), True, conj), FULL,
                         'only-theta', 'latitudinal integral depends on the azimuthal orders', wit,
                         rtol=1e-12)
        ck.case('selection', (ms, conj))
for m1, m2 in itertools.product(range(-3, 4), repeat=2):
    for conj in (None, True, False):
        allowed = (-m1 if conj else m1) + m2 == 0
        with ck.guard('selection-raised', witness=(m1, m2, conj)):
            got = HI.quadratic_angular_integral(o, ['a', 'b'], [m1, m2], conj=conj)
            ck.expect((abs(got - FULL) < 1e-11) if allowed else got == 0.0, 'selection-pair',
                      f'pair integral {got}, allowed: {allowed}', dict(m=(m1, m2), conj=conj))
        ck.case('selection-pair', (m1, m2, conj))
for bad in ((True, False), (True,) * 4, 'yes', 3, [True, False, False]):
    ck.raises(lambda: HI.quadratic_angular_integral(o, ['a', 'b', 'c'], [2, 1, 1], conj=bad),
              'bad-conjugation', 'malformed conjugation accepted', bad)
    ck.case('malformed', repr(bad))

# ---- closed-form integrals of polynomials, every rule
for it in range(ck.n(60, 600)):
    kind = ('chebyshev', 'uniform', 'legendre')[it % 3]
    x = grid(kind, int(rng.integers(300, 700)))
    o = Obj()
    o._mu_values = x
    ps = [np.polynomial.Polynomial(rng.normal(size=int(rng.integers(1, 5)))) for _ in range(3)]
    o.a, o.b, o.c = (p(x) for p in ps)
    q = ps[0] * ps[1] * ps[2]
    mul = bool(rng.integers(2))
    if mul:
        q = q * np.polynomial.Polynomial([0, 1])
    Q = q.integ()
    want = 2 * np.pi * (Q(1) - Q(-1))
    scale = 2 * np.pi * trap(np.abs(q(x)), x)
    div = 2 * np.pi * sum(c * np.pi * np.prod(np.arange(1, k, 2) / np.arange(2, k + 1, 2))
                          for k, c in enumerate(q.coef) if k % 2 == 0)
    sdiv = 2 * np.pi * np.pi * np.max(np.abs(q(x)))
    wit = dict(kind=kind, n=len(x), p=[p.coef for p in ps], mul=mul)
    for rule in ('trapz', 'simpson'):
        with ck.guard('poly-raised', witness=wit):
            got = HI.quadratic_angular_integral(o, ['a', 'b', 'c'], mul_with_mu=mul,
                                                num_integ_method=rule)
            ck.close(got, want, f'poly-{rule}-{kind}', 'integral of a polynomial', wit,
                     rtol=2e-3, scale=scale)
            got = HI.quadratic_angular_integral(o, ['a', 'b', 'c'], mul_with_mu=mul,
                                                num_integ_method=rule, div_by_sin=True)
            if kind != 'uniform':      # the uniform grid does not resolve 1/sin at the poles
                ck.close(got, div, f'poly-div-{rule}-{kind}', 'integral of a polynomial over the '
                         'sine', wit, rtol=3e-2, scale=sdiv)
    ck.case('polynomial', (kind, len(x), it))
    # Chebyshev-Gauss rule on a grid that covers its nodes
    xe = np.concatenate([[-1.0], x, [1.0]])
    o._mu_values = xe
    o.a, o.b, o.c = (p(xe) for p in ps)
    for dv, w, s in ((False, want, scale), (True, div, sdiv)):
        with ck.guard('gauss-raised', witness=wit):
            got = HI.quadratic_angular_integral(
                o, ['a', 'b', 'c'], mul_with_mu=mul, div_by_sin=dv, use_cheby_integration=True,
                cheby_order_multiplier=int(rng.integers(1, 6)))
            ck.close(got, w, f'gauss-{dv}', 'Chebyshev-Gauss rule', wit, rtol=2e-2, scale=s)
    # blow-up protection changes the rule, never the value beyond the truncation error
    o._mu_values = np.concatenate([[-1 + 1e-13], x, [1 - 1e-13]])
    o.a, o.b, o.c = (p(o._mu_values) for p in ps)
    with ck.guard('protection-raised', witness=wit):
        plain = HI.quadratic_angular_integral(o, ['a', 'b', 'c'], mul_with_mu=mul, div_by_sin=True)
        for fac in (1e-9, 1e9):
            got = HI.quadratic_angular_integral(
                o, ['a', 'b', 'c'], mul_with_mu=mul, div_by_sin=True,
                cheby_blow_up_protection=True, cheby_blow_up_factor=fac)
            if abs(plain / (2 * np.pi)) <= fac:
                ck.close(got, plain, 'protection-idle', 'protection changed an integral below its '
                         'limit', wit, rtol=1e-12, scale=abs(plain))
            else:
                ck.close(got, div, 'protection', 'protected integral', wit, rtol=3e-3, scale=sdiv)
                ck.observe('protected')
    ck.case('gauss', (kind, len(x), it))

# ---- spherical harmonics: triple products of non-rotating Hough functions
GX, GW = np.polynomial.legendre.leggauss(80)
KEYS = {'hr': 'hr_range', 'ht': 'ht_range', 'hp': 'hp_range', 'theta_der_hr': 'hrp_range',
        'theta_der_ht': 'htp_range', 'theta_der_hp': 'hpp_range', 'theta_der2_hr': 'hrpp_range',
        'theta_der_hr_theta': 'hrp_range_theta', 'theta_der2_hr_theta': 'hrpp_range_theta',
        'theta_der_ht_theta': 'htp_range_theta', 'theta_der_hp_theta': 'hpp_range_theta',
        'theta_phi': 'theta_phi_hough_tilde', 'phi_phi': 'phi_phi_hough_tilde', 'mhr': 'hr_range_m'}


def leg(l, m, x):
    p = lpmv(abs(m), l, x)
    fine = np.linspace(0, 1, 4001)
    return p / np.max(np.abs(lpmv(abs(m), l, fine)))


for it in range(ck.n(25, 250)):
    npts = int(rng.integers(60, 201))
    o = Obj()
    lm = []
    for i in range(3):
        l = int(rng.integers(1, 6))
        lm.append((l, int(rng.integers(-l, l + 1))))
    with ck.guard('legendre-raised', witness=lm):
        for i, (l, m) in enumerate(lm):
            d, mu, th = HFHandler.get_relevant_hough_output(0.0, l, m, npts=npts)
            setattr(o, f'_hr_mode_{i}', d['hr'])
        o._mu_values = mu
        ck.close(np.cos(th), mu, 'thetas', 'colatitudes do not belong to mu', lm, atol=1e-12)
        got = HI.quadratic_angular_integral(o, [f'_hr_mode_{i}' for i in range(3)])
        f = np.prod([leg(l, m, GX) for l, m in lm], axis=0)
        want = 2 * np.pi * float(GW @ f)
        scale = 2 * np.pi * float(GW @ np.abs(f))
        # sign convention: Hough functions are positive at the last node (equator/pole)
        ck.close(abs(got), abs(want), 'gaunt', 'triple product of Legendre functions', lm, rtol=6e-3,
                 scale=scale)
        if sum(l - abs(m) for l, m in lm) % 2:
            ck.expect(abs(got) <= 1e-10 * scale + 1e-12, 'antisymmetric',
                      f'antisymmetric product integrates to {got}', lm)
            ck.observe('antisymmetric')
    ck.case('legendre', (tuple(lm), npts))

# ---- rotating: retrieved functions and spectral quadrature of products of any of them
NAMES = HFHandler.get_functional_names()
ck.expect(sorted(NAMES) == sorted(KEYS), 'names', 'list of angular functions', NAMES)
CONV = ('prat', 'lee_saio_equivalent', 'townsend')
for it in range(ck.n(30, 300)):
    npts = int(rng.integers(60, 201))
    conv = CONV[it % 3]
    o = Obj()
    ok, modes = True, []
    for i in range(3):
        l = int(rng.integers(1, 4))
        m = int(rng.integers(-l, l + 1))
        nu = float(rng.uniform(-.9, .9))
        modes.append((nu, l, m))
    with ck.guard('rotating-raised', witness=modes):
        data = []
        for i, (nu, l, m) in enumerate(modes):
            lm_ = [l * (l + 1.0)] if rng.integers(2) else None
            d, mu, th = HFHandler.get_relevant_hough_output(nu, l, m, npts=npts, lmbd=lm_,
                                                            definition=conv)
            h = HF(nu=nu, l=l, m=m, npts=npts, lmbd=None if lm_ is None else lm_[0],
                   definition=conv)
            h()
            ck.close(mu, h.mu_range, 'mu', 'mu grid', modes, rtol=1e-12)
            ck.expect(np.all(np.diff(mu) > 0) and abs(mu[0] + mu[-1]) < 1e-12, 'mu-order',
                      'mu grid is not increasing', modes)
            for nm, attr in KEYS.items():
                ck.close(d[nm], getattr(h, attr), f'function-{nm}',
                         f'{nm} is not the Hough function it names', modes, rtol=1e-9)
            # what the names mean, on the returned arrays alone
            s = np.sqrt(1 - mu ** 2)
            tol = 2e-2
            core = slice(npts // 4, -npts // 4)
            for nm, base, fac in (('theta_der_hr', 'hr', 1), ('theta_der_ht', 'ht', 1),
                                  ('theta_der_hp', 'hp', 1), ('theta_der2_hr', 'theta_der_hr', 1),
                                  ('theta_der_hr_theta', 'hr', -1),
                                  ('theta_der_ht_theta', 'ht', -1),
                                  ('theta_der_hp_theta', 'hp', -1),
                                  ('theta_der2_hr_theta', 'theta_der_hr_theta', -1)):
                g = np.gradient(d[base], mu, edge_order=2) * (1 if fac == 1 else -s)
                ck.close(d[nm][core], g[core], f'derivative-{nm}', f'{nm} is not the derivative of '
                         f'{base}', modes, rtol=tol, scale=np.max(np.abs(g[core])) + 1e-9)
            ck.close(d['mhr'], -m * d['hr'], 'mhr', 'm times Hr', modes, rtol=1e-12)
            data.append(d)
        o._mu_values = mu
        pick = [NAMES[int(j)] for j in rng.integers(0, len(NAMES), 3)]
        if 'phi_phi' in pick or any('2' in p for p in pick):
            pick = ['hr', 'ht', 'hp']
        for i, (d, nm) in enumerate(zip(data, pick)):
            setattr(o, f'_{nm}_mode_{i + 1}', d[nm])
        desc = [f'_{nm}_mode_{i + 1}' for i, nm in enumerate(pick)]
        f = np.prod([d[nm] for d, nm in zip(data, pick)], axis=0)
        wit = dict(modes=modes, pick=pick, npts=npts, conv=conv)
        for mul in (False, True):
            got = HI.quadratic_angular_integral(o, desc, [2, -1, -1], mul_with_mu=mul)
            g = f * mu if mul else f
            scale = 2 * np.pi * trap(np.abs(g), mu)
            ck.close(got, 2 * np.pi * trap(g, mu), 'rotating', 'product of Hough functions', wit,
                     rtol=1e-11, scale=scale + 1e-300)
            fine = 2 * np.pi * fejer(g)
            cap = 4 * np.pi * (1 - mu[-1]) * max(abs(g[0]), abs(g[-1]))
            ck.close(got, fine, 'rotating-spectral', 'trapezoidal and spectral quadrature differ '
                     'beyond truncation', wit, rtol=2e-2, scale=scale + 1e-12, atol=3 * cap)
    ck.case('rotating', (tuple(modes), tuple(pick), npts, conv))
ck.need('protected', 5)
ck.need('antisymmetric', 3)
ck.need('rotating', 20)
ck.finish()
