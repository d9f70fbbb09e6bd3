"""C07: Chebyshev collocation operators against exact polynomial calculus."""
import numpy as np
from numpy.polynomial import Chebyshev, Polynomial

from vh import build
from vh.report import Check

ck = Check('C07', 'one case = (node count, parity, sine factor, function or operator): every '
           'basis function of every node count up to the bound plus random representable '
           'functions; exact derivatives come from polynomial algebra')
build.setup(['cpp-numintegrator'])
from cheby_transform import ChebyTransform  # noqa: E402

EPS = np.finfo(float).eps
rng = ck.rng()


def exact(poly, mu, pf):
    """f, f', f'' of s^pf * poly at the nodes."""
    s2 = 1.0 - mu ** 2
    p0, p1, p2 = poly(mu), poly.deriv(1)(mu), poly.deriv(2)(mu)
    if not pf:
        return p0, p1, p2
    s = np.sqrt(s2)
    # (s p)' = s p' - mu p / s ; (s p)'' = s p'' - 2 mu p'/s - p / s^3
    return s * p0, s * p1 - mu * p0 / s, s * p2 - 2 * mu * p1 / s - p0 / s ** 3


def check_fun(T, npts, poly, parity, pf, key, wit):
    mu, M = T.mu, len(T.mu)
    f, f1, f2 = exact(poly, mu, pf)
    amp = np.abs(f).max() + 1e-300
    s = np.sqrt(1 - mu ** 2)
    n = 2 * M
    c0, c1, c2 = rng.standard_normal((3, M))
    keep = f.copy()
    with ck.guard(key + '-raised', witness=wit):
        # errors of the collocation derivative grow as n^2 (n^4) and with 1/s
        e1 = 200 * EPS * n ** 2 * amp / s
        e2 = 200 * EPS * n ** 4 * amp / s ** 2
        ck.expect(np.all(np.abs(T.diff1(f, parity, pf) - f1) <= e1 + 1e-11 * np.abs(f1)),
                  key + '-diff1', 'first derivative', wit)
        ck.expect(np.all(np.abs(T.diff2(f, parity, pf) - f2) <= e2 + 1e-11 * np.abs(f2)),
                  key + '-diff2', 'second derivative', wit)
        tol = np.abs(c1) * e1 + np.abs(c2) * e2 + 1e-11 * (
            np.abs(c0 * f) + np.abs(c1 * f1) + np.abs(c2 * f2))
        ck.expect(np.all(np.abs(T.apply(f, c0, c1, c2, parity, pf)
                                - (c0 * f + c1 * f1 + c2 * f2)) <= tol),
                  key + '-apply', 'second-order operator', wit)
        tol = np.abs(c1) * e1 + 1e-11 * (np.abs(c0 * f) + np.abs(c1 * f1))
        ck.expect(np.all(np.abs(T.apply(f, c0, c1, None, parity, pf)
                                - (c0 * f + c1 * f1)) <= tol),
                  key + '-apply1', 'first-order operator', wit)
        ck.expect(np.array_equal(f, keep), key + '-input', 'the function array was modified', wit)


for npts in list(range(4, ck.n(42, 90))) + ck.n([64, 101, 200], [64, 101, 128, 150, 200, 301]):
    wit = {'npts': npts}
    with ck.guard('construct', witness=wit):
        T = ChebyTransform(npts=npts) if npts != 200 else ChebyTransform()
        M = npts // 2
        th = (2 * np.arange(M) + 1) * np.pi / (4 * M)
        ck.close(T.theta, th, 'nodes-theta', 'colatitudes of the nodes', wit, rtol=1e-13)
        ck.close(T.mu, np.cos(th), 'nodes-mu', 'nodes', wit, rtol=1e-13)
        ck.close(T.s, np.sin(th), 'nodes-s', 'sines at the nodes', wit, rtol=1e-12)
        for parity in (0, 1):
            for pf in (0, 1):
                js = range(M) if npts <= 42 else rng.choice(M, 6, replace=False)
                for j in js:
                    deg = 2 * int(j) + parity
                    P = Chebyshev.basis(deg)
                    w = {'npts': npts, 'parity': parity, 'sine factor': pf, 'degree': deg}
                    check_fun(T, npts, P, parity, pf, 'basis', w)
                    f, _, _ = exact(P, T.mu, pf)
                    c = T.d0[parity, pf] @ f
                    unit = np.zeros(M)
                    unit[int(j)] = 1.0
                    ck.expect(np.allclose(np.abs(c), unit, atol=1e-8), 'coefficients',
                              'values are not transformed to the Chebyshev coefficients', w)
                    ck.case('basis', (npts, parity, pf, deg), w)
                for rep in range(ck.n(2, 6)):
                    cf = rng.standard_normal(2 * M)
                    cf[(1 - parity)::2] = 0.0
                    w = {'npts': npts, 'parity': parity, 'sine factor': pf, 'random': rep}
                    check_fun(T, npts, Chebyshev(cf), parity, pf, 'random', w)
                    f, _, _ = exact(Chebyshev(cf), T.mu, pf)
                    back = np.linalg.solve(T.d0[parity, pf], T.d0[parity, pf] @ f)
                    ck.close(back, f, 'roundtrip', 'values -> coefficients -> values', w,
                             rtol=1e-9)
                    ck.case('random', (npts, parity, pf, rep), w)
                # spectrum of the Legendre operator: -l(l+1) with the right parity
                if npts >= 12:
                    mu = T.mu
                    c2, c1 = 1 - mu ** 2, -2 * mu
                    c0 = -pf / (1 - mu ** 2)
                    ev, vec = T.solve_eig(c0, c1, c2, parity, pf)
                    have = np.sort(ev.real)[::-1]
                    ls = [l for l in range(pf, 40) if (l - pf) % 2 == parity][:M // 3]
                    for l in ls:
                        d = np.abs(ev + l * (l + 1))
                        ck.expect(d.min() <= 1e-7 * (1 + l * (l + 1)), 'spectrum',
                                  f'no eigenvalue -{l}({l}+1); nearest {ev[d.argmin()]}',
                                  {'npts': npts, 'parity': parity, 'sine factor': pf})
                        k = int(d.argmin())
                        v = vec[:, k].real
                        r = T.apply(v, c0, c1, c2, parity, pf) - ev[k].real * v
                        ck.expect(np.abs(r).max() <= 1e-7 * (1 + l * l) * np.abs(v).max(),
                                  'eigenvector', f'eigenvector of l={l} does not satisfy the '
                                  'operator', {'npts': npts, 'parity': parity})
                        ck.case('spectrum', (npts, parity, pf, l))
ck.finish()
