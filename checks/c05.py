"""C05: finite differences: exactness on polynomials, linearity, equivariance, output shape."""
import math

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C05', 'one case = (scheme, derivative order, accuracy, grid kind, length, data); '
           'the data are polynomials in the scheme\'s exactness class (exact derivative known), '
           'or random data for linearity and shift/scale relations')
build.setup(['fornberg-num-deriv'])
from myfnd import fnd  # noqa: E402
from num_deriv import NumericalDifferentiator  # noqa: E402

EPS = np.finfo(float).eps
rng = ck.rng()


def grid(n, kind, span=1.0):
    if kind == 'uniform':
        x = np.linspace(-span, span, n)
    elif kind == 'jitter':
        x = np.linspace(-span, span, n) + rng.uniform(-0.3, 0.3, n) * 2 * span / n
    elif kind == 'cheb':
        x = -span * np.cos((np.arange(n) + 0.5) * np.pi / n)
    else:
        x = span * np.geomspace(0.05, 1.0, n)
    if rng.random() < 0.3:
        x = x[::-1]
    return np.ascontiguousarray(x)


def weights_ref(x0, xs, m):
    """Fornberg weights of order m by an independent route (Vandermonde-free Lagrange)."""
    from numpy.polynomial import polynomial as npp
    n = len(xs)
    out = np.empty(n)
    for j in range(n):
        p = np.array([1.0])
        for k in range(n):
            if k != j:
                p = npp.polymul(p, np.array([x0 - xs[k], 1.0]) / (xs[j] - xs[k]))
        out[j] = math.factorial(m) * (p[m] if m < n else 0.0)
    return out


def stencil(i, n, acc):
    imid = acc // 2 if acc % 2 == 0 else acc // 2 + 1
    jend = acc // 2
    if i < imid:
        return 0
    if i >= n - jend:
        return n - acc - 1
    return i - imid


def poly_case(call, x, deg, order, inner, key, wit, tol_scale=None, amp=None):
    """call(y) -> derivative must be exact for random polynomials up to degree deg."""
    c = rng.standard_normal(deg + 1)
    ctr, wid = 0.5 * (x.max() + x.min()), 0.5 * (x.max() - x.min())
    p = np.polynomial.Polynomial(c, domain=[ctr - wid, ctr + wid], window=[-1, 1])
    y = p(x)
    want = p.deriv(order)(x) if order else y
    with ck.guard(key + '-raised', witness=wit):
        got = call(y)
        ck.expect(got.shape == x.shape, key + '-shape', f'result has shape {got.shape}', wit)
        sl = slice(inner[0], len(x) - inner[1])
        err = np.abs(got - want)[sl]
        # rounding: sum |weights| * |y| is bounded by `amp`
        tol = 1e4 * EPS * (amp if amp is not None else 1.0) * max(1.0, np.abs(y).max()) \
            + 1e-9 * np.abs(want).max()
        ck.expect(err.size == 0 or np.all(err <= tol), key,
                  f'derivative {order} of a degree-{deg} polynomial is off by {err.max():.2e}'
                  if err.size else '', dict(wit, x=x, c=c))
        return got


def fornberg(order, acc, x):
    def call(y):
        du = np.full_like(x, np.nan)
        x0, y0 = x.copy(), y.copy()
        fnd.fornberg_grid_derivative(order, acc, x, y, du)
        ck.expect(np.array_equal(x, x0) and np.array_equal(y, y0), 'fornberg-input',
                  'an input array was modified', {'order': order, 'acc': acc})
        return du
    return call


def amp_of(x, order, acc):
    """A bound for the sum of absolute finite-difference weights."""
    n, best = len(x), 0.0
    for i in {0, 1, n // 2, n - 1}:
        s = stencil(i, n, acc)
        best = max(best, np.abs(weights_ref(x[i], x[s:s + acc + 1], order)).sum())
    dx = np.abs(np.diff(x)).min()
    return max(best, (1.0 / dx) ** order)


# compiled kernel: every accuracy and order, several grids and lengths
for acc in range(1, 13):
    for order in range(0, 5):
        for kind in ('uniform', 'jitter', 'cheb', 'geom'):
            for n in {acc + 1, acc + 2, int(rng.integers(acc + 1, 40)), 37}:
                if n < acc + 1:
                    continue
                for rep in range(ck.n(1, 8)):
                    x = grid(n, kind, 10.0 ** rng.uniform(-2, 2))
                    for deg in {acc, int(rng.integers(0, acc + 1))}:
                        poly_case(fornberg(order, acc, x), x, deg, order, (0, 0),
                                  f'fornberg-a{acc}-o{order}',
                                  {'acc': acc, 'order': order, 'n': n, 'kind': kind},
                                  amp=amp_of(x, order, acc))
                        ck.case('fornberg-poly', (acc, order, kind, n, deg, float(x[0])),
                                {'acc': acc, 'order': order, 'n': n, 'kind': kind,
                                 'degree': deg})
# linearity, shift and scale of the grid (random data)
for i in range(ck.n(300, 4000)):
    acc, order = int(rng.integers(1, 8)), int(rng.integers(0, 4))
    n = int(rng.integers(acc + 1, 60))
    x = grid(n, str(rng.choice(['uniform', 'jitter', 'cheb'])))
    y, z = rng.standard_normal((2, n))
    a, b = rng.standard_normal(2)
    f = fornberg(order, acc, x)
    wit = {'acc': acc, 'order': order, 'n': n}
    tol = 1e5 * EPS * amp_of(x, order, acc) * 10
    with ck.guard('fornberg-raised', witness=wit):
        dy, dz = f(y), f(z)
        ck.close(f(a * y + b * z), a * dy + b * dz, 'fornberg-linear', 'not linear', wit,
                 rtol=0, atol=tol)
        s, t = float(2.0 ** rng.integers(-5, 6)), float(rng.uniform(-1, 1))
        xs = s * x + t
        ck.close(fornberg(order, acc, xs)(y) * s ** order, dy, 'fornberg-affine',
                 'derivative does not follow a shift/scale of the grid', wit, rtol=0,
                 atol=tol * 100)
        ck.close(fornberg(order, acc, np.ascontiguousarray(-x))(y) * (-1.0) ** order, dy,
                 'fornberg-reflect', 'derivative does not follow a reversal of the grid sign',
                 wit, rtol=0, atol=tol * 10)
    ck.case('fornberg-random', (acc, order, n, i), wit)
# the differentiator class
for i in range(ck.n(200, 3000)):
    acc = int(rng.integers(1, 7))
    order = int(rng.integers(0, 4))
    n = int(rng.integers(acc + 2, 60))
    x = grid(n, str(rng.choice(['uniform', 'jitter', 'geom'])))
    default = rng.random() < 0.3 and n > 6
    a = 4 if default else acc
    c = rng.standard_normal(a + 1)
    unit = 1.0 if i % 2 else 10.0 ** rng.uniform(-12, 12)
    x = x * unit
    P = np.polynomial.Polynomial(c / unit ** np.arange(a + 1))
    y = P(x)
    wit = {'unit': unit, 'method': 'fornberg', 'order': order, 'acc': a, 'n': n, 'default': default}
    with ck.guard('class-fornberg-raised', witness=wit):
        d = NumericalDifferentiator(order, 'fornberg')
        out, info = d.differentiate(x, y) if default else \
            d.differentiate(x, y, interpolation_order=acc)
        ck.expect(len(out) == order + 1 and isinstance(info, str), 'class-fornberg-count',
                  f'{len(out)} arrays for order {order}', wit)
        for k, o in enumerate(out):
            ck.close(o, P.deriv(k)(x) if k else y, f'class-fornberg-o{k}',
                     f'derivative {k}', wit, rtol=1e-8,
                     atol=1e5 * EPS * amp_of(x, k, a) * max(1, np.abs(y).max()))
    ck.case('class-fornberg', (order, a, n, i), wit)
for i in range(ck.n(200, 3000)):
    kind = str(rng.choice(['uniform', 'jitter', 'geom']))
    n = int(rng.integers(6, 80))
    x = grid(n, kind)
    edge = int(rng.integers(1, 3))
    order = int(rng.integers(0, 2))
    # grids of any length unit
    unit = 1.0 if i % 2 else 10.0 ** rng.uniform(-12, 12)
    x = x * unit
    P = np.polynomial.Polynomial(rng.standard_normal(3) / unit ** np.arange(3))
    y = P(x)
    wit = {'method': 'gradient', 'edge_order': edge, 'n': n, 'kind': kind, 'order': order,
           'unit': unit}
    dxm = np.abs(np.diff(x)).min()
    with ck.guard('gradient-raised', witness=wit):
        d = NumericalDifferentiator(order_derivative=order, differentiation_method='gradient') \
            if i % 4 < 2 else NumericalDifferentiator(order)
        out, info = d.differentiate(x, y, edge_order=edge) if edge == 1 or i % 3 else \
            d.differentiate(x, y)
        ck.expect(len(out) == order + 1, 'gradient-count', f'{len(out)} arrays', wit)
        ck.close(out[0], y, 'gradient-o0', 'zeroth derivative is not the data', wit)
        if order:
            s = slice(1, -1) if edge == 1 else slice(None)
            ck.expect(out[1].shape == x.shape, 'gradient-shape', 'wrong length', wit)
            ck.close(out[1][s], P.deriv()(x)[s], f'gradient-exact-e{edge}',
                     'gradient of a parabola', wit, rtol=1e-9, atol=1e3 * EPS / dxm * 10)
            Q = np.polynomial.Polynomial(rng.standard_normal(2) / unit ** np.arange(2))
            o2, _ = d.differentiate(x, Q(x), edge_order=edge)
            ck.close(o2[1], Q.deriv()(x) * np.ones(n), 'gradient-linear-exact',
                     'gradient of a line', wit, rtol=1e-9, atol=1e3 * EPS / dxm * 10)
    ck.case('gradient', (edge, n, kind, order, i), wit)
for i in range(ck.n(120, 1500)):
    typ, mo = [('forward', 1), ('backward', 1), ('center', 1), ('center', 2)][i % 4]
    kind = 'uniform' if mo == 2 else str(rng.choice(['uniform', 'jitter', 'geom']))
    n = int(rng.integers(8, 60))
    x = grid(n, kind)
    order = int(rng.integers(0, 2))
    deg = 4 if mo == 2 else 2 if (typ == 'center' and kind == 'uniform') else 1
    unit = 1.0 if i % 8 < 4 else 10.0 ** rng.uniform(-12, 12)
    x = x * unit
    P = np.polynomial.Polynomial(rng.standard_normal(deg + 1) / unit ** np.arange(deg + 1))
    y = P(x)
    wit = {'method': 'stencil_functions', 'type': typ, 'stencil order': mo, 'n': n, 'kind': kind,
           'unit': unit}
    lo, hi = {'forward': (0, 1), 'backward': (1, 0), 'center': (mo, mo)}[typ]
    with ck.guard('stencil-raised', witness=wit):
        out, info = NumericalDifferentiator(order, 'stencil_functions').differentiate(
            x, y, my_order=mo, my_differencing_type=typ)
        ck.expect(len(out) == order + 1, 'stencil-count', f'{len(out)} arrays', wit)
        ck.close(out[0], y, 'stencil-o0', 'zeroth derivative is not the data', wit)
        if order:
            ck.expect(out[1].shape == x.shape, 'stencil-shape', 'wrong length', wit)
            ck.close(out[1][lo:n - hi], P.deriv()(x)[lo:n - hi] * np.ones(n - lo - hi),
                     f'stencil-{typ}{mo}', 'stencil derivative of a polynomial', wit,
                     rtol=1e-9, atol=1e4 * EPS / np.abs(np.diff(x)).min() * max(1, np.abs(y).max()))
    ck.case('stencil', (typ, mo, n, kind, i), wit)
# internal interpolation: results are given at the input points
for i in range(ck.n(80, 800)):
    method = str(rng.choice(['fornberg', 'gradient']))
    n = int(rng.integers(6, 50))
    x = grid(n, str(rng.choice(['uniform', 'jitter'])))
    if x[0] > x[-1]:
        x = np.ascontiguousarray(x[::-1])
    fac = int(rng.integers(2, 13))
    P = np.polynomial.Polynomial(rng.standard_normal(2))
    wit = {'method': method, 'n': n, 'factor': fac, 'x': x}
    with ck.guard('interp-raised', witness=wit):
        out, _ = NumericalDifferentiator(1, method, True, fac).differentiate(x, P(x))
        ok = ck.expect(all(o.shape == x.shape for o in out), 'interp-shape',
                       f'{[o.shape for o in out]} values for {n} points', wit)
        if ok:
            ck.close(out[0], P(x), 'interp-o0', 'values at the input points', wit, rtol=1e-10)
            ck.close(out[1], P.deriv()(x) * np.ones(n), 'interp-o1',
                     'slope of a line after interpolation', wit, rtol=1e-7, atol=1e-7)
    ck.case('interpolation', (method, n, fac, i), wit)
ck.finish()
