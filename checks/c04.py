"""C04: limb darkening and disc integrals against independently assembled quadratures."""
import math

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C04', 'one case = one call of the limb-darkening or disc-integral entry point with a '
           'seeded grid (both hemispheres, either direction, various lengths), angular '
           'functions, rule, thread count and flag; unit impulses pin every weight')
build.setup(['cpp-ld-funcs', 'cpp-disc-integrator'])
from ld_funcs import ldf  # noqa: E402
from disc_integrator import di  # noqa: E402

EPS = np.finfo(float).eps
rng = ck.rng()
THREADS = [1, 2, 3, 4, 7, 8]


def rule(method, f, x):
    n = len(f)
    h = x[1] - x[0]
    w = np.ones(n)
    if method == 'simpson' and n >= 3 and n % 2:
        w[:] = 2.0
        w[1::2] = 4.0
        w[0] = w[-1] = 1.0
        w /= 3.0
    else:
        w[0] = w[-1] = 0.5
    t = h * w * f
    return math.fsum(t), math.fsum(np.abs(t))


def reference(mu, a, d1, d2, method):
    k = (mu >= 0.0) & (mu <= 1.0)
    mu, a, d1, d2 = mu[k], a[k], d1[k], d2[k]
    h = 1.0 + 1.5 * mu
    f1 = mu * a * h
    f2 = (2.0 * mu * d1 + (mu * mu - 1.0) * d2) * h * mu
    s = np.abs(2.0 * mu * d1) * h * mu + np.abs((mu * mu - 1.0) * d2) * h * mu
    i1, a1 = rule(method, f1, mu)
    i2, _ = rule(method, f2, mu)
    _, a2 = rule(method, s, mu)
    n = len(mu)
    return (i1, (n + 32) * EPS * abs(a1)), (i2, (n + 32) * EPS * abs(a2)), k


def grid(n, kind):
    if kind == 'full':
        mu = np.linspace(-1, 1, n)
    elif kind == 'half':
        mu = np.linspace(0, 1, n)
    elif kind == 'wide':
        mu = np.linspace(-1.3, 1.4, n)
    elif kind == 'open':
        mu = -1 + (np.arange(n) + 0.5) * 2 / n
    else:
        lo = rng.uniform(-1, 0.3)
        mu = lo + rng.uniform(0.2, 1.2) / n * np.arange(n)
    return mu[::-1].copy() if rng.random() < 0.4 else np.ascontiguousarray(mu)


def disc(mu, a, d1, d2, method, th, pa, key, wit):
    copies = [v.copy() for v in (mu, a, d1, d2)]
    (i1, t1), (i2, t2), _ = reference(mu, a, d1, d2, method)
    with ck.guard('disc-raised', witness=wit):
        g1, g2 = di.get_integrals(mu, a, d1, d2, 'eddington', method, th, pa)
        ck.expect(abs(g1 - i1) <= t1 + 1e-300, key + '-first',
                  f'first disc integral {g1!r} instead of {i1!r}', wit)
        ck.expect(abs(g2 - i2) <= t2 + 1e-300, key + '-second',
                  f'second disc integral {g2!r} instead of {i2!r}', wit)
        ck.expect(all(np.array_equal(u, v, equal_nan=True)
                      for u, v in zip(copies, (mu, a, d1, d2))),
                  'disc-input-modified', 'an input array was modified', wit)
        return g1, g2


# limb darkening
for i in range(ck.n(300, 3000)):
    n = int(rng.choice([1, 2, 3, int(rng.integers(4, 200)), int(rng.integers(200, 20000))]))
    mu = rng.uniform(-1, 1, n) if i % 3 else np.linspace(0, 1, n)
    th, pa = int(rng.choice(THREADS)), bool(i % 2)
    res = np.full(n, np.nan)
    keep = mu.copy()
    wit = {'n': n, 'threads': th, 'parallel': pa, 'mu': mu}
    with ck.guard('ld-raised', witness=wit):
        ldf.compute(mu, res, 'eddington', th, pa)
        ck.expect(np.allclose(res, 1.0 + 1.5 * mu, rtol=4 * EPS, atol=4 * EPS)
                  and not np.isnan(res).any(),
                  'ld-value', 'limb-darkening value differs from 1 + 1.5 mu', wit)
        ck.expect(np.array_equal(mu, keep), 'ld-input-modified', 'mu array was modified', wit)
    ck.case('ld', (n, th, pa, i), wit)
# disc integrals: impulses in every array at every grid point
for n in list(range(5, ck.n(22, 60))):
    for kind in ('full', 'half', 'open'):
        mu = grid(n, kind)
        if ((mu >= 0) & (mu <= 1)).sum() < 2:
            continue
        for method in ('trapz', 'simpson'):
            for which in range(3):
                for k in range(n):
                    arrs = [np.zeros(n) for _ in range(3)]
                    arrs[which][k] = 1.0
                    th, pa = int(rng.choice(THREADS)), bool(rng.integers(2))
                    disc(mu, *arrs, method, th, pa, f'impulse-{"par" if pa else "ser"}-{method}',
                         {'n': n, 'kind': kind, 'which': which, 'k': k, 'mu': mu})
                    ck.case('impulse', (n, kind, method, which, k, float(mu[0])))
# random functions; superposition; independence from the hidden hemisphere
for i in range(ck.n(400, 6000)):
    n = int(rng.choice([int(rng.integers(5, 60)), int(rng.integers(60, 3000))]))
    kind = str(rng.choice(['full', 'half', 'wide', 'open', 'other']))
    mu = grid(n, kind)
    vis = (mu >= 0) & (mu <= 1)
    if vis.sum() < 2:
        continue
    sc = 10.0 ** rng.uniform(-12, 12, 3)
    a, d1, d2 = (s * rng.standard_normal(n) for s in sc)
    method = str(rng.choice(['trapz', 'simpson']))
    wit = {'n': n, 'kind': kind, 'method': method, 'mu': mu}
    for th in (1, int(rng.choice(THREADS))):
        for pa in (False, True):
            r = disc(mu, a, d1, d2, method, th, pa, f'random-{"par" if pa else "ser"}-{method}',
                     wit)
            ck.case('random', (i, n, kind, method, th, pa), wit)
    if r is None:
        continue
    if not vis.all():
        b = [np.where(vis, v, s) for v, s in zip((a, d1, d2), (1e30, np.nan, np.inf))]
        with ck.guard('disc-raised', witness=wit):
            g = di.get_integrals(mu, *b, 'eddington', method, 2, bool(i % 2))
            ck.expect(np.allclose(g, r, rtol=1e-9), 'hidden-hemisphere',
                      'values outside the visible disc have an influence', wit)
        ck.case('hidden', (i, n))
# convergence: spherical-harmonic-like polynomials have closed-form integrals
for l in range(0, 9):
    P = np.polynomial.legendre.Legendre.basis(l)
    N = 2 * 4000 + 1
    for direction in (1, -1):
        mu = np.ascontiguousarray(np.linspace(-1, 1, N)[::direction])
        a, d1, d2 = P(mu), P.deriv(1)(mu), P.deriv(2)(mu)
        x = np.polynomial.Polynomial([0, 1])
        Pp = P.convert(kind=np.polynomial.Polynomial)
        w = x * (1 + 1.5 * x)
        e1 = (w * Pp).integ()
        e2 = (w * (2 * x * Pp.deriv() + (x * x - 1) * Pp.deriv(2))).integ()
        for method in ('trapz', 'simpson'):
            with ck.guard('disc-raised'):
                g = di.get_integrals(mu, a, d1, d2, 'eddington', method, 4, direction > 0)
                ck.close(np.array(g) * direction, [e1(1) - e1(0), e2(1) - e2(0)],
                         'legendre', f'disc integrals of P_{l}', {'l': l, 'method': method},
                         rtol=1e-5 if method == 'trapz' else 1e-9, scale=1.0 + l ** 2)
            ck.case('legendre', (l, direction, method))
ck.need('hidden', 50)
ck.finish()
