"""Worker process of C03: every kernel with a parallel switch, parallel against serial. Runs with
the thread sanitizer, vh/gomp_shim.c as OpenMP runtime and seeded schedules (variant tsan), or
with the unmodified libgomp and longer arrays (variant plain):

    python -m vh.races VARIANT SEED COUNT START JOURNAL"""

import ctypes
import json
import signal
import sys
import threading
import warnings

import numpy as np

from vh import native

EPS = np.finfo(float).eps
SIZES = (1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 64, 100, 257, 1000)


def pick(rng, variant, least):
    if variant == 'plain' and rng.integers(3) == 0:
        return int(rng.integers(5000, 200000))
    return max(least, int(rng.choice(SIZES)))


def make(rng, m, variant):
    """name, description, f(parallel, threads) -> list of arrays, scale of the rounding error"""
    what = str(rng.choice(['quad', 'ld', 'disc', 'disc', 'widths', 'bin', 'cf', 'prob', 'dens',
                           'vdens', 'jacky', 'vjacky', 'loop', 'vloop', 'gloop', 'spec', 'opt',
                           'optlog', 'logspec']))
    n = pick(rng, variant, 4)
    d = {'what': what, 'n': n}
    lp = {False: 'serial_loop', True: 'parallel_loop'}
    suf = {False: '', True: '_parallel'}
    if what == 'quad':
        meth, eq = str(rng.choice(['trapz', 'simpson'])), bool(rng.integers(2))
        x, f = np.cumsum(rng.uniform(0.1, 1, n)), rng.standard_normal(n)
        if eq:
            x = np.linspace(0, 1, n)
        d.update(method=meth, equal=eq)
        return d, lambda p, t: [m['cni'].integrate(meth, eq, f, x, t, p)], \
            [n * (np.max(np.abs(np.diff(x))) * np.max(np.abs(f)))]
    if what == 'ld':
        mu = rng.uniform(-1, 1, n)

        def run(p, t):
            out = np.full(n, native.SENT)
            m['ldf'].compute(mu, out, 'eddington', t, p)
            return [out]
        return d, run, [0]
    if what == 'disc':
        mu = np.linspace(-1, 1, n) if rng.integers(2) else np.sort(rng.uniform(0, 1, n))
        a = [rng.standard_normal(n) for _ in range(3)]
        meth = str(rng.choice(['trapz', 'simpson']))
        d.update(method=meth)
        return d, lambda p, t: list(m['di'].get_integrals(mu, *a, 'eddington', meth, t, p)), [0, 0]
    if what == 'widths':
        e = np.cumsum(rng.uniform(0.1, 1, n))
        return d, lambda p, t: [getattr(m['bw'], 'cython_compute_bin_widths' + suf[p])(e)], [0]
    if what == 'bin':
        v = rng.uniform(0, 100, n)
        w = float(rng.choice([0.5, 3.0]))
        return d, lambda p, t: [getattr(m['b'], 'cython_binning_' + lp[p])(v, 0.0, w)], [0]
    counts = rng.integers(0, 50, n).astype(float)
    edges = np.cumsum(rng.uniform(0.1, 1, n + 1))
    al, fac, w = float(rng.uniform(1.5, 3)), float(rng.uniform(1, 99)), float(rng.uniform(.1, 2))
    if what == 'cf':
        return d, lambda p, t: [getattr(
            m['cf'], 'cython_empirical_probability_conversion_' + lp[p])(counts, al)], \
            [np.sum(counts + al)]
    isint = bool(rng.integers(2))
    i, f = ('_int', int(fac)) if isint else ('', fac)

    def inplace(mod, name, *args):
        def run(p, t):
            h = counts.copy()
            getattr(mod, name + suf[p])(h, *args)
            return [h]
        return run
    d['int'] = isint
    if what == 'prob':
        return d, inplace(m['eph'], f'cython_empirical_probability_hist{i}', f), [0]
    if what == 'dens':
        return d, inplace(m['edh'], f'cython_empirical_density_hist{i}', f, w), [0]
    if what == 'vdens':
        return d, inplace(m['edh'], f'cython_variable_bw_empirical_density_hist{i}', f, edges), [0]
    with np.errstate(all='ignore'):
        s = np.sum(np.abs(counts * np.log((counts + al - 1) / (fac * w))))
        s2 = np.sum(np.abs(counts * np.log((counts + al - 1) / (fac * np.diff(edges)))))
    if what == 'jacky':
        return d, lambda p, t: [getattr(m['j'], 'cython_jacky_' + lp[p])(counts, al, w, fac)], [s]
    if what == 'vjacky':
        return d, lambda p, t: [getattr(m['j'], 'cython_variable_bw_jacky_' + lp[p])(
            counts, edges, al, fac)], [s2]
    if what == 'loop':
        return d, lambda p, t: [m['j'].cython_jacky_loop(n, counts, al, w, fac, p)], [s]
    if what == 'vloop':
        return d, lambda p, t: [m['j'].cython_variable_bw_jacky_loop(
            n, counts, edges, al, fac, p)], [s2]
    if what == 'gloop':
        const = bool(rng.integers(2))
        return d, lambda p, t: [m['j'].cython_generalized_jacky_loop(
            counts, al, fac, p, edges, w, const)], [max(s, s2)]
    cy, nb = m['cy'], int(rng.integers(2, 9))
    # no two candidate histograms may tie, or rounding would decide between them
    v = rng.gamma(2.0, 1.0, n) + 0.1
    dens = bool(rng.integers(2))
    d.update(bins=nb, density=dens)
    if what == 'spec':
        return d, lambda p, t: [cy.histogram_cython_spec_width(
            v, np.ptp(v) / nb, 0.0, not dens, dens, nb, 0, False, p)], [0]
    if what == 'opt':
        return d, lambda p, t: [np.asarray(r, float) for r in cy.hogg_jackknife_likelihood_cython(
            v, [1.5], [nb], [0.0], [1.0], False, not dens, dens, False, p)[:3]], [0] * 3
    if what == 'optlog':
        # numpy computes the edges (base ** x) with a scalar or a vector routine, depending on
        # whether the allocator puts input and output side by side: they may differ in rounding
        e = np.logspace(np.log10(v.min()), np.log10(v.max()), nb + 1)
        wmin = np.min(np.diff(e))
        se = 16 * e[-1]
        return d, lambda p, t: [np.asarray(r, float) for r in
                                cy.hogg_jackknife_likelihood_cython_log(
                                    v, [1.5], [nb], [1.0], False, not dens, dens, False, p)[:3]], \
            [se / wmin ** 2 if dens else 0, se, se]
    e = np.linspace(v.min(), v.max(), nb + 1)
    return d, lambda p, t: [cy.histogram_cython_log_spec_edges(
        v, e, not dens, dens, 0, False, p)], [0]


def differs(a, b, scale, n):
    if len(a) != len(b):
        return True
    for x, y, s in zip(a, b, scale):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
            return True
        with np.errstate(all='ignore'):
            bad = np.abs(x - y) > (n + 16) * EPS * s + 4 * EPS * np.abs(y)
        if np.any(bad & ~np.isnan(x) & (x != y)):
            return True
    return False


def main():
    variant, seed, count, start, journal = (sys.argv[1], int(sys.argv[2]), int(sys.argv[3]),
                                            int(sys.argv[4]), sys.argv[5])
    warnings.simplefilter('ignore')
    m = native.load(variant)
    glob = ctypes.CDLL(None)
    shim = hasattr(glob, 'vh_present')
    if variant == 'tsan' and not shim:
        sys.exit('the OpenMP stand-in is not loaded')
    omp = glob if shim else ctypes.CDLL('libgomp.so.1')
    with open(journal, 'a', buffering=1) as out:
        for i in range(start, count):
            rng = np.random.default_rng([seed, i])
            d, run, scale = make(rng, m, variant)
            threads = [int(t) for t in rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16], 3)]
            out.write(f'B {i} ' + json.dumps([d['what'], {**d, 'threads': threads}]) + '\n')
            signal.alarm(120)
            bad = []
            serial = run(False, 1)
            again = run(False, 1)
            # the same call may itself be parallel inside: reductions may differ in rounding
            if differs(again, serial, scale, d['n']):
                bad.append('serial-repeat: a repeated serial call gives another result')
            schedules = set()
            for k, t in enumerate(threads):
                if shim:
                    glob.vh_seed(ctypes.c_uint64(seed * 1000003 + i * 31 + k))
                omp.omp_set_num_threads(t)
                got = run(True, t)
                schedules.add((t, k))
                if differs(got, serial, scale, d['n']):
                    bad.append(f'parallel: {t} threads give {np.ravel(got[0])[:3]}, the serial '
                               f'call {np.ravel(serial[0])[:3]}')
            if not shim and i % 10 == 0:
                # concurrent calls from Python threads
                res = [None] * 4
                th = [threading.Thread(target=lambda q=q: res.__setitem__(q, run(True, 3)))
                      for q in range(4)]
                [x.start() for x in th]
                [x.join() for x in th]
                if any(r is None or differs(r, serial, scale, d['n']) for r in res):
                    bad.append('concurrent: calls from concurrent Python threads give another '
                               'result than the serial call')
            signal.alarm(0)
            out.write(f'E {i} ' + json.dumps([len(schedules), bad]) + '\n')
        c = (ctypes.c_long * 4)()
        if shim:
            glob.vh_counts(c)
        out.write('END ' + json.dumps(list(c)) + '\n')


if __name__ == '__main__':
    main()
