"""C01: quadrature kernel against exactly summed composite rules."""
import math
import threading

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C01', 'one case = one (length, grid, integrand, rule, spacing flag, threads, '
           'parallel flag) tuple; unit impulses recover every quadrature weight for every '
           'length up to the bound, random arrays cover larger lengths and magnitudes')
build.setup(['cpp-numintegrator'])
from num_integrator import cni  # noqa: E402

EPS = np.finfo(float).eps


def terms(method, equal, f, x):
    """The composite rule as a list of exactly representable-free terms for fsum."""
    n = len(f)
    if equal:
        h = x[1] - x[0]
        if method == 'simpson' and n >= 3 and n % 2:
            w = np.full(n, 2.0)
            w[1::2] = 4.0
            w[0] = w[-1] = 1.0
            return [h / 3.0 * wi * fi for wi, fi in zip(w, f)]
        w = np.ones(n)
        w[0] = w[-1] = 0.5
        return [h * wi * fi for wi, fi in zip(w, f)]
    dx = np.diff(x)
    return list(0.5 * dx * f[1:]) + list(0.5 * dx * f[:-1])


def one(method, equal, f, x, threads, para, kind):
    key = f'{kind}-{method}-{"equal" if equal else "unequal"}'
    wit = {'method': method, 'equal': equal, 'n': len(f), 'f': f, 'x': x,
           'threads': threads, 'parallel': para}
    f0, x0 = f.copy(), x.copy()
    with ck.guard(key + '-raised', witness=wit):
        got = cni.integrate(method, equal, f, x, threads, para)
        t = terms(method, equal, f, x)
        want = math.fsum(t)
        tol = (len(f) + 16) * EPS * math.fsum(map(abs, t)) + 1e-300
        ck.expect(isinstance(got, float) and abs(got - want) <= tol, key,
                  f'integral {got!r} instead of {want!r} (n={len(f)})', wit)
        ck.expect(np.array_equal(f, f0) and np.array_equal(x, x0), key + '-input',
                  'an input array was modified', wit)
        again = cni.integrate(method, equal, f, x, threads, para)
        ck.expect(again == got or (para and abs(again - got) <= tol), key + '-repeat', f'repetition gives {again!r}, not {got!r}', wit)
    return got


rng = ck.rng()
THREADS = [1, 2, 3, 4, 8]
NMAX = ck.n(40, 160)
# all quadrature weights, recovered with unit impulses
for n in range(2, NMAX + 1):
    h = float(rng.uniform(0.1, 2.0)) * (-1 if n % 5 == 0 else 1)
    x_eq = rng.uniform(-1, 1) + h * np.arange(n)
    x_un = np.cumsum(rng.uniform(0.05, 1.5, n))
    if n % 4 == 0:
        x_un = x_un[::-1].copy()
    for method in ('trapz', 'simpson'):
        for equal, x in ((True, x_eq), (False, x_un), (False, x_eq)):
            for k in range(n):
                f = np.zeros(n)
                f[k] = 1.0
                th, pa = int(rng.choice(THREADS)), bool(rng.integers(2))
                one(method, equal, f, x, th, pa, 'weight')
                ck.case('weight', (method, equal, n, k, round(float(x[0]), 12)),
                        {'method': method, 'equal': equal, 'n': n, 'impulse': k})
# random integrands, also long ones, with all thread/flag combinations
for i in range(ck.n(150, 3000)):
    n = int(rng.choice([2, 3, 4, 5, 6, 7, int(rng.integers(8, 100)),
                        int(rng.integers(100, 5000)), 2 * int(rng.integers(2500, 20000)) + 1,
                        2 * int(rng.integers(2500, 20000))]))
    scale = 10.0 ** rng.uniform(-30, 30)
    f = rng.standard_normal(n) * scale
    if rng.random() < 0.2:
        f = np.exp(rng.uniform(-20, 20, n))
    equal = bool(rng.integers(2))
    x = rng.uniform(-5, 5) + (rng.uniform(0.001, 3) * np.arange(n) if equal
                              else np.cumsum(rng.uniform(0, 2, n)))
    for method in ('trapz', 'simpson'):
        vals = set()
        for th in THREADS:
            for pa in (False, True):
                vals.add(one(method, equal, f, x, th, pa, 'random'))
                ck.case('random', (method, equal, n, i, th, pa),
                        {'method': method, 'equal': equal, 'n': n, 'threads': th,
                         'parallel': pa})
        t = math.fsum(map(abs, terms(method, equal, f, x)))
        vals.discard(None)
        ck.expect(not vals or max(vals) - min(vals) <= 2 * (n + 16) * EPS * t, 'thread-dependence',
                  'result depends on threads or the parallel flag', {'n': n, 'method': method})
# interleaved use from several Python threads, methods and sizes mixed: no cross-talk
jobs = []
for i in range(64):
    n = int(rng.integers(2, 400))
    jobs.append((['trapz', 'simpson'][i % 2], bool(i % 3), rng.standard_normal(n),
                 np.cumsum(rng.uniform(0.1, 1, n)) if i % 3 == 0 else 0.3 * np.arange(n)))
alone = [cni.integrate(m, e, f, x, 2, False) for m, e, f, x in jobs]
bad = []


def worker(order):
    for j in order:
        m, e, f, x = jobs[j]
        v = cni.integrate(m, e, f, x, 1 + j % 4, bool(j % 2))
        if not abs(v - alone[j]) <= 1e-9 * np.abs(f).sum() * np.abs(np.diff(x)).max():
            bad.append((j, v, alone[j]))


ts = [threading.Thread(target=worker, args=(rng.permutation(64),)) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
ck.case('concurrent', 'mixed', {'python threads': 8, 'calls': 512})
ck.observe('concurrent-calls', 512)
ck.expect(not bad, 'interleaved', 'results differ when calls interleave', bad[:5])
ck.need('weight', 1000)
ck.finish()
