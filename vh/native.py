"""Worker process of C02: hostile calls of every native kernel, with the result of every call
judged by a reference, and the memory around its arguments watched. Run under the sanitizer
runtimes by checks/c02.py, which reads the journal:

    python -m vh.native VARIANT SEED COUNT START JOURNAL

The journal has one line per event: `B n {case}` before a call, `E n {outcome}` after it."""

import json
import os
import signal
import sys
import warnings

import numpy as np

from vh import build

SENT = np.frombuffer(b'\xa5\xa5\xa5\xa5\xa5\xa5\xf5\x7f', dtype=np.float64)[0]   # a NaN
SIZES = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 40, 63, 100, 257)


def is_sent(a):
    return np.ascontiguousarray(a).view(np.uint64) == np.array(SENT).view(np.uint64)


class Arr:
    """An argument with known surroundings. kind: how it is laid out."""
    GOOD = ('own', 'band', 'band', 'own')
    ODD = ('strided', 'reversed', 'f32', 'int', 'twod', 'readonly', 'big', 'list', 'none')

    def __init__(self, rng, values, kind):
        v = np.asarray(values, dtype=np.float64)
        self.kind, self.values, self.base, self.mask = kind, v, None, None
        n = v.size
        if kind == 'own':
            self.arr = v.copy()
        elif kind == 'band':
            lo, hi = int(rng.integers(1, 9)), int(rng.integers(1, 9))
            self.base = rng.choice([np.nan, np.inf, 1e300, -7.5, 3.25], lo + n + hi)
            self.base[lo:lo + n] = v
            self.arr = self.base[lo:lo + n]
        elif kind == 'strided':
            self.base = np.full(2 * n + 3, -3.5)
            self.arr = self.base[1:1 + 2 * n:2]
            self.arr[...] = v
        elif kind == 'reversed':
            self.base = v[::-1].copy()
            self.arr = self.base[::-1]
        elif kind == 'f32':
            with np.errstate(all='ignore'):
                self.arr = v.astype(np.float32)
        elif kind == 'int':
            self.arr = np.nan_to_num(v, nan=0.0, posinf=9, neginf=-9).clip(-9e9, 9e9).astype(
                np.int64)
        elif kind == 'twod':
            self.arr = v.copy().reshape(1, n) if n % 2 else v.copy().reshape(2, n // 2)
        elif kind == 'readonly':
            self.arr = v.copy()
            self.arr.flags.writeable = False
        elif kind == 'big':
            self.arr = v.astype('>f8')
        elif kind == 'list':
            self.arr = v.tolist()
        elif kind == 'none':
            self.arr = None
        self.odd = kind in self.ODD
        if self.base is not None:
            self.frozen = self.base.copy()
            m = np.zeros(self.base.shape, bool)
            if kind == 'band':
                m[lo:lo + n] = True
            elif kind == 'strided':
                m[1:1 + 2 * n:2] = True
            else:
                m[:] = True
            self.mask = m
        self.before = (self.arr.copy() if isinstance(self.arr, np.ndarray)
                       else self.arr)

    def surroundings_intact(self):
        if self.base is None:
            return True
        a, b = self.base[~self.mask], self.frozen[~self.mask]
        return np.array_equal(a.view(np.uint64), b.view(np.uint64))

    def unchanged(self):
        if isinstance(self.arr, np.ndarray):
            return self.arr.tobytes() == self.before.tobytes()
        return True


def numbers(rng, n, flavour):
    if flavour == 'plain':
        return rng.uniform(-2.0, 2.0, n)
    if flavour == 'unit':
        return np.sort(rng.uniform(0.0, 1.0, n))
    if flavour == 'mu':
        return np.linspace(-1.0, 1.0, n) if n != 1 else np.array([0.5])
    if flavour == 'ramp':
        return np.cumsum(rng.uniform(0.05, 1.0, n))
    if flavour == 'constant':
        return np.full(n, float(rng.uniform(0.1, 3.0)))
    if flavour == 'counts':
        return rng.integers(0, 9, n).astype(float)
    if flavour == 'wide':
        return rng.standard_normal(n) * 10.0 ** rng.uniform(-300, 300, n)
    v = rng.uniform(-2.0, 2.0, n)
    k = max(1, n // 4)
    if n:
        v[rng.integers(0, n, k)] = rng.choice([np.nan, np.inf, -np.inf, -0.0, 5e-324, 1e308], k)
    return v


def pick_len(rng):
    return int(rng.choice(SIZES))


def other_len(rng, n):
    while True:
        m = int(rng.choice([n - 1, n + 1, n + 2, 2 * n, n // 2, 0, n + 40, pick_len(rng)]))
        if m >= 0 and m != n:
            return m


class Case:
    """kernel name, a callable, Arr inputs, Arr outputs, reference of the outcome."""

    def __init__(self, name, call, inputs, outputs, valid, ref=None, result=None, tol=1e-9,
                 scale=None):
        self.name, self.call, self.inputs, self.outputs = name, call, inputs, outputs
        self.valid, self.ref, self.result, self.tol = valid, ref, result, tol
        self.scale = scale


def same(got, want, tol, scale):
    with np.errstate(all='ignore'):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        # intermediate results may overflow: nothing can be said about the outcome
        huge = np.zeros(want.shape, bool)
        if scale is not None:
            huge |= np.isfinite(scale) & (np.asarray(scale) > 1e306)
            scale = np.asarray(scale, dtype=float)
    if got.shape != want.shape:
        return False
    with np.errstate(all='ignore'):
        gf, wf = np.isfinite(got), np.isfinite(want)
        s = np.abs(want) if scale is None else np.maximum(np.abs(want), scale)
        near = np.abs(got - want) <= tol * s + 1e-300
        # where the reference overflows or is undefined, only a finite value would be wrong;
        # where rounding decides about overflow, anything large is right
        loose = ~gf & ~wf
        brink = (np.abs(np.where(gf, got, 1e308)) > 1e306) & (np.abs(np.where(wf, want, 1e308))
                                                             > 1e306)
    return bool(np.all(huge | np.where(gf & wf, near, loose | (brink & (gf | wf)))))


def moderate(v):
    v = np.abs(np.asarray(v, dtype=float))
    return bool(np.all((v == 0) | ((v > 1e-60) & (v < 1e60))))


# ---- references
def quad_ref(method, equal, f, x):
    # extended precision: intermediate results cannot overflow here
    n, f, x = len(f), np.asarray(f, np.longdouble), np.asarray(x, np.longdouble)
    with np.errstate(all='ignore'):
        if equal:
            h = x[1] - x[0]
            if method == 'simpson' and n % 2 and n >= 3:
                return h / 3 * (f[0] + f[-1] + 4 * np.sum(f[1:-1:2]) + 2 * np.sum(f[2:-1:2])), \
                    abs(h) * 2 * np.sum(np.abs(f))
            return h * ((f[0] + f[-1]) / 2 + np.sum(f[1:-1])), abs(h) * np.sum(np.abs(f))
        d = np.diff(x)
        t = d * (f[1:] + f[:-1]) / 2
        return np.sum(t), np.sum(np.abs(d) * (np.abs(f[1:]) + np.abs(f[:-1])) / 2)


def disc_ref(method, mu, a, d1, d2):
    keep = (mu >= 0) & (mu <= 1)
    m, a, d1, d2 = (v[keep].astype(np.longdouble) for v in (mu, a, d1, d2))
    with np.errstate(all='ignore'):
        ld = 1 + 1.5 * m
        one, s1 = quad_ref(method, True, m * a * ld, m)
        two, s2 = quad_ref(method, True, (2 * m * d1 + (m * m - 1) * d2) * ld * m, m)
        _, s3 = quad_ref(method, True, (2 * np.abs(m * d1) + np.abs(d2)) * ld * m, m)
    return (one, two), np.array([s1, s3])


def fornberg_ref(order, acc, x, u):
    """Derivative weights from the moment equations of the documented stencil."""
    n, out, sc = len(x), np.zeros(len(x)), np.zeros(len(x))
    imid, jend = ((acc // 2, acc // 2) if acc % 2 == 0 else (acc // 2 + 1, acc // 2))
    for i in range(n):
        if i < imid:
            s = 0
        elif i < n - jend:
            s = i - imid
        else:
            s = n - acc - 1
        g = x[s:s + acc + 1] - x[i]
        if order > acc:
            continue
        # Newton interpolation in extended precision
        w = np.zeros(acc + 1, dtype=np.longdouble)
        for k in range(acc + 1):
            poly = np.array([1.0], dtype=np.longdouble)
            for j in range(acc + 1):
                if j != k:
                    poly = np.convolve(poly, np.array([1.0, -g[j]], dtype=np.longdouble)) / (
                        np.longdouble(g[k]) - np.longdouble(g[j]))
            w[k] = poly[::-1][order]
        w *= np.prod(np.arange(1, order + 1, dtype=np.longdouble))
        out[i] = float(np.sum(w * u[s:s + acc + 1]))
        sc[i] = float(np.sum(np.abs(w)) * np.max(np.abs(u[s:s + acc + 1])))
    return out, sc


# ---- case makers
def layout(rng, odd):
    return str(rng.choice(Arr.ODD)) if odd else str(rng.choice(Arr.GOOD))


def make(rng, mods):
    what = str(rng.choice(['quad', 'ld', 'disc', 'fornberg', 'hist', 'hist', 'api']))
    flav = str(rng.choice(['plain', 'special', 'wide', 'constant', 'plain']))
    n = pick_len(rng)
    mode = str(rng.choice(['good', 'good', 'good', 'mismatch', 'odd']))
    threads, par = int(rng.choice([1, 2, 3, 4, 8, 0, -1])), bool(rng.integers(2))

    def arrs(k, lens=None, flavours=None):
        lens = [n] * k if lens is None else lens
        odd = int(rng.integers(k)) if mode == 'odd' else -1
        if mode == 'mismatch' and k > 1:
            j = int(rng.integers(k))
            lens[j] = other_len(rng, lens[j])
        return [Arr(rng, numbers(rng, lens[j], (flavours or [flav] * k)[j]), layout(rng, j == odd))
                for j in range(k)]

    if what == 'quad':
        method = str(rng.choice(['trapz', 'simpson', 'simpson', '', 'SIMPSON', 'é']))
        eq = bool(rng.integers(2))
        f, x = arrs(2, flavours=[flav, str(rng.choice(['ramp', 'mu', 'special']))])
        ref = None
        if f.values.size == x.values.size >= 2:
            v, s = quad_ref(method, eq, f.values, x.values)
            ref = ([v], s)
        return Case('quad.integrate', lambda: mods['cni'].integrate(
            method, eq, f.arr, x.arr, threads, par), [f, x], [],
            f.values.size == x.values.size >= 2, ref, 'scalar'), dict(
                method=method, equal=eq, n=[f.values.size, x.values.size], threads=threads,
                par=par, kinds=[f.kind, x.kind])
    if what == 'ld':
        mu, res = arrs(2, flavours=[str(rng.choice(['mu', 'unit', flav])), 'plain'])
        if isinstance(res.arr, np.ndarray) and res.kind not in ('readonly', 'int', 'f32', 'big'):
            res.arr[...] = SENT
        name = str(rng.choice(['eddington', 'eddington', 'no such law', '']))
        v = mu.values.size
        with np.errstate(all='ignore'):
            ref = ([1 + 1.5 * mu.values], None)
        return Case('ld.compute', lambda: mods['ldf'].compute(mu.arr, res.arr, name, threads, par),
                    [mu], [res], v == res.values.size and v >= 1 and (threads > 0 or not par),
                    ref, 'outputs'), dict(n=[v, res.values.size], law=name, threads=threads,
                                          par=par, kinds=[mu.kind, res.kind])
    if what == 'disc':
        fl = str(rng.choice(['mu', 'unit', 'mu', 'plain', 'special']))
        a = arrs(4, flavours=[fl, flav, flav, flav])
        method = str(rng.choice(['trapz', 'simpson', 'simpson']))
        mu = a[0].values
        lens = {x.values.size for x in a}
        vis = int(np.sum((mu >= 0) & (mu <= 1)))
        ok = len(lens) == 1 and vis >= 2 and (threads > 0 or not par)
        ref = disc_ref(method, *[x.values for x in a]) if ok else None
        return Case('disc.get_integrals', lambda: mods['di'].get_integrals(
            *[x.arr for x in a], 'eddington', method, threads, par), a, [], ok, ref,
            'scalar'), dict(n=[x.values.size for x in a], visible=vis, method=method,
                            threads=threads, par=par, kinds=[x.kind for x in a])
    if what == 'fornberg':
        order = int(rng.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, -1, 40]))
        acc = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 12, 19, 20, 21, -1, n, n - 1, 1000]))
        g, u, du = arrs(3, flavours=[str(rng.choice(['ramp', 'mu', 'unit', flav])), flav, 'plain'])
        if isinstance(du.arr, np.ndarray) and du.kind not in ('readonly', 'int', 'f32', 'big'):
            du.arr[...] = SENT
        m = g.values.size
        ok = (m == u.values.size == du.values.size and 0 <= order < 8 and 0 <= acc < 20
              and acc < m)
        ref = None
        gaps = np.diff(g.values) if ok else np.zeros(1)
        small = acc <= 6 and (gaps.size == 0 or gaps.min() > 1e-4 * gaps.max() > 0)
        if ok and small and np.all(np.isfinite(g.values)) and np.all(np.isfinite(u.values)) \
                and np.all(np.abs(u.values) < 1e100) and np.all(np.abs(g.values) < 1e6):
            with np.errstate(all='ignore'):
                r, s = fornberg_ref(order, acc, g.values, u.values)
            ref = ([r], s)
        return Case('fornberg.grid_derivative', lambda: mods['fnd'].fornberg_grid_derivative(
            order, acc, g.arr, u.arr, du.arr), [g, u], [du], ok, ref, 'outputs', 1e-6), dict(
                n=[m, u.values.size, du.values.size], order=order, acc=acc,
                kinds=[g.kind, u.kind, du.kind])
    if what == 'hist':
        return hist_case(rng, mods, arrs, n, flav, mode)
    return api_case(rng, mods, n, flav)


def fits(edges, bins):
    """None: more edges than needed may be accepted or refused."""
    return True if edges == bins + 1 else None if edges > bins + 1 else False


def hist_case(rng, mods, arrs, n, flav, mode):
    which = str(rng.choice(['widths', 'bin', 'cf', 'prob', 'dens', 'vdens', 'vdens', 'jacky',
                            'vjacky', 'vjacky', 'loop', 'vloop', 'gloop']))
    par = bool(rng.integers(2))
    suf = '_parallel' if par else ''
    loop = 'parallel_loop' if par else 'serial_loop'
    alpha = float(rng.uniform(0.5, 3.0))
    fac = float(rng.choice([1.0, 7.0, 0.0, 0.3]))
    bw = float(rng.choice([0.25, 1.0, 0.0, -0.5, 1e-300, 1e300, np.nan]))
    err = np.errstate(all='ignore')
    if which == 'widths':
        e, = arrs(1, flavours=['ramp'])
        with err:
            ref = ([np.diff(e.values)], None)
        fn = getattr(mods['bw'], 'cython_compute_bin_widths' + suf)
        return Case(fn.__name__, lambda: fn(e.arr), [e], [], e.values.size >= 1, ref,
                    'array'), dict(n=[e.values.size], kinds=[e.kind])
    if which == 'bin':
        d, = arrs(1)
        lo, ph = float(rng.choice([0.0, -2.0, 1e9, np.nan, np.inf])), float(rng.choice([0., .3]))
        with err:
            q = np.floor((d.values - lo) / bw - ph)
        fn = getattr(mods['b'], 'cython_binning_' + loop)
        return Case(fn.__name__, lambda: fn(d.arr, lo, bw, bin_phase=ph), [d], [], True,
                    ([q], None), 'ints'), dict(n=[d.values.size], lo=lo, bw=bw,
                                               phase=ph, kinds=[d.kind])
    if which == 'cf':
        d, = arrs(1, flavours=['counts'])
        fn = getattr(mods['cf'], 'cython_empirical_probability_conversion_' + loop)
        ref = ([np.sum(d.values + alpha) - 1.0], np.sum(d.values + alpha) + 1)
        return Case(fn.__name__, lambda: fn(d.arr, alpha), [d], [], True, ref, 'scalar'), dict(
            n=[d.values.size], kinds=[d.kind])
    if which in ('prob', 'dens'):
        h, = arrs(1, flavours=['counts'])
        isint = bool(rng.integers(2))
        f = int(rng.choice([1, 7, 0, 100])) if isint else fac
        i = '_int' if isint else ''
        with err:
            if which == 'prob':
                fn = getattr(mods['eph'], f'cython_empirical_probability_hist{i}{suf}')
                want, call = h.values / f if f else h.values * np.inf, lambda: fn(h.arr, f)
            else:
                fn = getattr(mods['edh'], f'cython_empirical_density_hist{i}{suf}')
                want = h.values / np.float64(f * bw)
                call = lambda: fn(h.arr, f, bw)    # noqa: E731
        return Case(fn.__name__, call, [], [h], True, ([want], None), 'outputs'), dict(
            n=[h.values.size], kinds=[h.kind], f=f, bw=bw)
    if which == 'vdens':
        h, e = arrs(2, lens=[n, n + 1], flavours=['counts', 'ramp'])
        isint = bool(rng.integers(2))
        f = int(rng.choice([1, 7, 0, 100])) if isint else fac
        fn = getattr(mods['edh'], 'cython_variable_bw_empirical_density_hist'
                     + ('_int' if isint else '') + suf)
        ok = fits(e.values.size, h.values.size)
        ref = None
        if ok:
            with err:
                ref = ([h.values / (np.float64(f) * np.diff(e.values))], None)
        return Case(fn.__name__, lambda: fn(h.arr, f, e.arr), [e], [h], ok, ref,
                    'outputs'), dict(n=[h.values.size, e.values.size], kinds=[h.kind, e.kind])
    if which in ('jacky', 'loop'):
        d, = arrs(1, flavours=['counts'])
        size = d.values.size
        with err:
            t = d.values * np.log((d.values + alpha - 1) / np.float64(fac * bw))
        fn = (getattr(mods['j'], 'cython_jacky_' + loop) if which == 'jacky'
              else mods['j'].cython_jacky_loop)
        if which == 'jacky':
            call, ok = (lambda: fn(d.arr, alpha, bw, fac)), True
        else:
            size = int(rng.choice([size, size, max(size - 1, 0), size + 1, size + 30, -1, 0]))
            ok = 0 <= size <= d.values.size
            t = t[:max(size, 0)]
            call = lambda: fn(size, d.arr, alpha, bw, fac, par)    # noqa: E731
        return Case(fn.__name__, call, [d], [], ok, ([np.sum(t)], np.sum(np.abs(t))),
                    'scalar'), dict(n=[d.values.size], size=size, kinds=[d.kind], bw=bw, fac=fac)
    d, e = arrs(2, lens=[n, n + 1], flavours=['counts', 'ramp'])
    ok = fits(e.values.size, d.values.size)
    size = d.values.size
    if which == 'vjacky':
        fn = getattr(mods['j'], 'cython_variable_bw_jacky_' + loop)
        call = lambda: fn(d.arr, e.arr, alpha, fac)    # noqa: E731
    elif which == 'vloop':
        fn = mods['j'].cython_variable_bw_jacky_loop
        size = int(rng.choice([size, size, max(size - 1, 0), size + 1, size + 30, -1]))
        ok = ok if size == d.values.size else None if 0 <= size < min(
            d.values.size, e.values.size) else False
        call = lambda: fn(size, d.arr, e.arr, alpha, fac, par)    # noqa: E731
    else:
        fn = mods['j'].cython_generalized_jacky_loop
        const = bool(rng.integers(2))
        ok = ok or (const and None)
        call = lambda: fn(d.arr, alpha, fac, par, e.arr, bw, const)    # noqa: E731
    ref = None
    if ok:
        with err:
            w = np.full(size, bw) if which == 'gloop' and const else np.diff(e.values)
            t = d.values * np.log((d.values + alpha - 1) / (np.float64(fac) * w))
        ref = ([np.sum(t)], np.sum(np.abs(t)))
    return Case(fn.__name__, call, [d, e], [], ok, ref, 'scalar'), dict(
        n=[d.values.size, e.values.size], size=size, kinds=[d.kind, e.kind], bw=bw, fac=fac)


def api_case(rng, mods, n, flav):
    """The Python functions that hand arrays to the kernels: they must return or raise."""
    cy = mods['cy']
    which = str(rng.choice(['spec', 'log', 'opt', 'optlog', 'disc']))
    fl = str(rng.choice([flav, 'unit', 'ramp', 'constant']))
    d = Arr(rng, numbers(rng, n, fl), 'own')
    par, dens = bool(rng.integers(2)), bool(rng.integers(2))
    nb, mnb = int(rng.choice([1, 2, 3, 5, 12])), int(rng.choice([0, 0, 3, 20]))
    desc = dict(n=[n], flavour=fl, par=par, bins=nb, min_bins=mnb, density=dens)
    if which == 'spec':
        bw = float(rng.choice([0.1, 1.0, 0.0, 1e-12, np.nan]))
        desc['bw'] = bw
        call = lambda: cy.histogram_cython_spec_width(    # noqa: E731
            d.arr, bw, 0.0, not dens, dens, nb, mnb, False, par)
    elif which == 'log':
        e = Arr(rng, numbers(rng, nb + 1, 'ramp'), 'own')
        call = lambda: cy.histogram_cython_log_spec_edges(    # noqa: E731
            d.arr, e.arr, not dens, dens, mnb, False, par)
    elif which == 'opt':
        phases = [0.0, 0.25] if rng.integers(4) == 0 else [0.0]
        call = lambda: cy.hogg_jackknife_likelihood_cython(    # noqa: E731
            d.arr, [1.0, 1.5], [nb, nb + 1], phases, [1.0], False, not dens, dens, False, par)
    elif which == 'optlog':
        call = lambda: cy.hogg_jackknife_likelihood_cython_log(    # noqa: E731
            d.arr, [1.0, 1.5], [nb, nb + 1], [1.0], False, not dens, dens, False, par)
    else:
        mu = Arr(rng, numbers(rng, n, 'mu'), 'own')
        call = lambda: mods['di'].get_integrals(    # noqa: E731
            mu.arr, d.arr, d.arr, d.arr, 'eddington', 'simpson', 2, par)
        return Case('api.' + which, call, [d, mu], [], None, None, 'any'), desc
    return Case('api.' + which, call, [d], [], None, None, 'any'), desc


def judge(c):
    """Runs one case; returns (outcome, [problems])."""
    bad = []
    odd = [a.kind for a in c.inputs + c.outputs if a.odd]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = c.call()
        outcome = 'returned'
    except SystemExit:
        got, outcome = None, 'raised SystemExit'
    except Exception as e:    # noqa: BLE001
        got, outcome = None, 'raised ' + type(e).__name__
    for a in c.inputs + c.outputs:
        if not a.surroundings_intact():
            bad.append(f'wrote-outside: memory around an argument ({a.kind}) was written')
    for a in c.inputs:
        if not a.unchanged():
            bad.append(f'wrote-input: an input array ({a.kind}) was modified')
    if c.valid is None:
        return outcome, bad
    if outcome.startswith('raised'):
        if c.valid and not odd:
            bad.append(f'refused: valid arguments, but {outcome}')
        return outcome, bad
    if odd and any(k in ('twod', 'none') for k in odd):
        return outcome, bad          # accepted through a conversion: memory rules only
    if not c.valid:
        bad.append('silent: the arguments do not fit together, but nothing was raised')
        return outcome, bad
    for a in c.outputs:
        if isinstance(a.arr, np.ndarray) and a.arr.dtype == np.float64 and np.any(is_sent(a.arr)):
            bad.append('unwritten: part of an output array was left unwritten')
    if odd and any(k in ('f32', 'int') for k in odd):
        return outcome, bad          # rounded input
    if c.ref is None or not all(moderate(a.values) for a in c.inputs):
        return outcome, bad          # extreme values: memory rules only
    if c.result == 'ints':
        q, g = c.ref[0][0], np.asarray(got)
        ok = np.abs(q) < 2.0 ** 31 - 1
        if g.shape != q.shape or g.dtype.kind != 'i' or not np.array_equal(
                g[ok].astype(float), q[ok]):
            bad.append('value: a computed value is not the defined one')
        return outcome, bad
    val = ([a.arr for a in c.outputs] if c.result == 'outputs' else [got])
    want = c.ref[0] if c.result in ('outputs', 'array') else [np.squeeze(np.array(c.ref[0]))]
    for v, w in zip(val, want):
        if not same(v, w, c.tol, c.ref[1]):
            bad.append(f'value: got {np.asarray(v).ravel()[:4]}, not {np.asarray(w).ravel()[:4]}')
    return outcome, bad


def load(variant):
    build.setup([], variant)
    from disc_integrator import di
    from hogg_jacky.cython_jacky import cy_jacky as cy
    from hogg_jacky.cython_jacky import cython_jacky_bin_widths as bw
    from hogg_jacky.cython_jacky import cython_jacky_binning as b
    from hogg_jacky.cython_jacky import cython_jacky_empirical_density_hist as edh
    from hogg_jacky.cython_jacky import cython_jacky_empirical_probability_conversion_factor as cf
    from hogg_jacky.cython_jacky import cython_jacky_empirical_probability_hist as eph
    from hogg_jacky.cython_jacky import cython_jacky_jacky as j
    from ld_funcs import ldf
    from myfnd import fnd
    from num_integrator import cni
    return dict(cni=cni, ldf=ldf, di=di, fnd=fnd, cy=cy, bw=bw, b=b, cf=cf, eph=eph, edh=edh, j=j)


def main():
    variant, seed, count, start, journal = (sys.argv[1], int(sys.argv[2]), int(sys.argv[3]),
                                            int(sys.argv[4]), sys.argv[5])
    mods = load(variant)
    only = os.environ.get('VH_ONLY')
    with open(journal, 'a', buffering=1) as out:
        signal.alarm(0)
        for i in range(start, count):
            rng = np.random.default_rng([seed, i])
            c, desc = make(rng, mods)
            out.write(f'B {i} ' + json.dumps([c.name, desc], default=str) + '\n')
            if only and int(only) != i:
                continue
            signal.alarm(60)
            outcome, bad = judge(c)
            signal.alarm(0)
            out.write(f'E {i} ' + json.dumps([outcome, bad]) + '\n')
        out.write('END\n')


if __name__ == '__main__':
    main()
