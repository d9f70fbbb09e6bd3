"""C08: histograms conserve the sample."""
import contextlib
import io

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C08', 'one case = one (implementation, output mode, sample, candidate bins) call; '
           'counts recovered from the output are compared bin by bin with the number of '
           'samples between the returned edges')
build.setup(['histogram_maker'])
import hogg_jacky as hj  # noqa: E402

LIN = {
    'numpy': (hj.histogram_likelihood_numpy, {}), 'iter': (hj.histogram_likelihood_iter, {}),
    'blas': (hj.histogram_likelihood_blas, {}), 'numexpr': (hj.histogram_likelihood_numexpr, {}),
    'cython': (hj.histogram_likelihood_cython, {}),
    'cython-par': (hj.histogram_likelihood_cython, {'use_parallel': True}),
    'blas-checked': (hj.histogram_likelihood_blas, {'additional_checks': True}),
    'numexpr-checked': (hj.histogram_likelihood_numexpr, {'additional_checks': True}),
    'cython-checked': (hj.histogram_likelihood_cython, {'additional_checks': True}),
}
LOG = {
    'iter': (hj.log_histogram_likelihood_iter, {}), 'blas': (hj.log_histogram_likelihood_blas, {}),
    'numexpr': (hj.log_histogram_likelihood_numexpr, {}),
    'cython': (hj.log_histogram_likelihood_cython, {}),
    'cython-par': (hj.log_histogram_likelihood_cython, {'use_parallel': True}),
}
MODES = {'count': (False, False), 'prob': (True, False), 'density': (False, True)}
rng = ck.rng()


def sample(positive):
    n = int(rng.choice([2, 3, 5, 10, 37, 100, 400]))
    kind = rng.integers(0, 7)
    if kind == 0:
        d = rng.normal(size=n)
    elif kind == 1:
        d = rng.uniform(-3, 8, size=n)
    elif kind == 2:
        d = rng.exponential(size=n) ** 3
    elif kind == 3:
        d = rng.integers(0, 12, size=n).astype(float)
    elif kind == 4:
        d = 1e6 + rng.uniform(0, 1, size=n)
    elif kind == 5:
        d = np.concatenate([rng.normal(size=n), 50 + rng.normal(size=2)])
    else:
        d = 10.0 ** rng.uniform(-12, 6, size=n)
    if positive:
        d = np.abs(d) + (1.0 if kind == 3 else 1e-14)
    elif rng.random() < 0.3:
        d = -d
    d[1] = d[0] + max(1e-6 * abs(d[0]), 0.5) if np.ptp(d) == 0 else d[1]
    if np.ptp(d) < 1e-7 * np.abs(d).max():
        return sample(positive)
    return np.ascontiguousarray(d)


def counts_between(d, edges, log):
    """Lower and upper bound of the number of samples between consecutive edges."""
    tol = 8 * np.finfo(float).eps * np.abs(d).max() + 1e-12 * np.ptp(d)
    nb = len(edges) - 1
    lo, hi = np.empty(nb), np.empty(nb)
    for i in range(nb):
        ta = tb = tol
        if log:
            ta, tb = 1e-11 * abs(edges[i]), 1e-11 * abs(edges[i + 1])
        lo[i] = np.sum((d > edges[i] + ta) & (d < edges[i + 1] - tb))
        hi[i] = np.sum((d >= edges[i] - ta) & (d <= edges[i + 1] + tb))
    return lo, hi


def judge(key, h, edges, d, mode, log, wit):
    """d: the valued samples. Returns the recovered counts."""
    h = np.asarray(h, dtype=float)
    n = len(d)
    if not ck.expect(h.shape == (len(edges) - 1,), key + '-shape',
                     f'{h.shape[0] if h.ndim else 0} bin values for {len(edges)} edges', wit):
        return None
    w = np.diff(edges)
    rt = 1e-9 + 16 * np.finfo(float).eps * np.abs(d).max() / w.min()  # rounding of the edges
    c = h * n if mode == 'prob' else (h * n * w if mode == 'density' else h)
    lo, hi = counts_between(d, edges, log)
    ok = np.isfinite(c).all() and np.all(np.abs(c - np.round(c)) <= rt * n)
    ck.expect(ok, key + '-integer', f'{mode} values are not multiples of 1/N: {c[:6]}', wit)
    if ok:
        r = np.round(c)
        ck.expect(np.all((lo <= r) & (r <= hi)), key + '-bins',
                  f'bin counts {r[:12]} outside [{lo[:12]}, {hi[:12]}]', wit)
        ck.expect(r.sum() == n, key + '-sum', f'{r.sum()} of {n} samples counted', wit)
    tot = {'count': h.sum() / n, 'prob': h.sum(), 'density': np.sum(h * w)}[mode]
    ck.expect(abs(tot - 1) < rt, key + '-total', f'{mode} adds to {tot!r}', wit)
    return c


def edges_ok(key, e, d, nb, log, wit):
    e = np.asarray(e)
    if not ck.expect(e.shape == (nb + 1,), key + '-edges', f'{e.shape} edges, {nb} bins', wit):
        return
    ck.expect(np.all(np.diff(e) > 0), key + '-edges', 'edges do not increase', wit)
    sc = np.abs(d).max()
    tol = 1e-11 * np.array([d.min(), d.max()]) if log else 4e-15 * sc
    ck.expect(np.all(np.abs(e[[0, -1]] - [d.min(), d.max()]) <= np.abs(tol)), key + '-edges',
              f'edges run from {e[0]!r} to {e[-1]!r}, samples from {d.min()!r} to {d.max()!r}', wit)
    if log:
        ck.close(np.diff(np.log10(e)), np.full(nb, np.ptp(np.log10(d)) / nb), key + '-edges',
                 'edges not equally spaced in log', wit, rtol=1e-7, atol=1e-10)
    else:
        ck.close(np.diff(e), np.full(nb, np.ptp(d) / nb), key + '-edges',
                 'edges not equally spaced', wit, rtol=1e-10, atol=1e-14 * sc)


def automatic(log):
    d = sample(log)
    nmax = int(rng.integers(1, 40)) if rng.random() < .9 else int(rng.integers(130, 400))
    bins = sorted(set(rng.integers(1, nmax + 1, size=4).tolist()))
    if rng.random() < 0.5:
        bins = np.array(bins, dtype=np.int32)
    alphas = [float(a) for a in rng.choice([1.5, 2.0, 5.0, 10.0, 50.0], size=2)]
    full = d
    nan = int(rng.integers(0, 3)) * int(rng.integers(1, 20))
    if nan:
        full = np.insert(d, rng.integers(0, len(d) + 1, size=nan), np.nan)
    for name, (fn, kw) in (LOG if log else LIN).items():
        tag = ('log-' if log else 'lin-') + name
        res = {}
        for mode, (p, q) in MODES.items():
            key = f'{tag}-{mode}'
            x = full.copy()
            wit = {'impl': tag, 'mode': mode, 'data': full, 'alphas': alphas, 'bins': list(bins)}
            ck.case('automatic-' + ('log' if log else 'lin'), (tag, mode, full, list(bins), alphas),
                    {'impl': tag, 'mode': mode, 'n': len(full), 'nan': nan, 'bins': list(map(int, bins))})
            with ck.guard(key + '-raised', witness=wit):
                a = (np.array(alphas), bins) if rng.random() < .5 else (alphas, list(bins))
                h, e, bw, par = fn(x, *a, empirical_probability=p, empirical_density=q,
                                   return_binning_parameters=True, **kw)
                nb = int(par['nr of bins'])
                ck.expect(nb in list(bins) and par['binning alpha'] in alphas, key + '-param',
                          f'chosen parameters {par} are no candidates', wit)
                ck.expect(np.array_equal(x, full, equal_nan=True), key + '-input',
                          'the sample array was modified', wit)
                edges_ok(key, e, d, nb, log, wit)
                res[mode] = judge(key, h, e, d, mode, log, wit)
                if log:
                    ck.close(bw, np.diff(e), key + '-width', 'widths are not edge differences',
                             wit, rtol=1e-9)
                else:
                    ck.close(bw, np.ptp(d) / nb, key + '-width', 'bin width is not range/bins',
                             wit, rtol=1e-9, atol=1e-14 * np.abs(d).max())
                if nan:
                    h2, e2, _, _ = fn(d.copy(), *a, empirical_probability=p,
                                      empirical_density=q, return_binning_parameters=True, **kw)
                    ck.observe('nan-removal')
                    ck.expect(np.array_equal(h, h2) and np.array_equal(e, e2), key + '-nan',
                              'missing samples change the histogram', wit)
                h3, e3, _, _ = fn(rng.permutation(full), *a, empirical_probability=p,
                                  empirical_density=q, return_binning_parameters=True, **kw)
                ck.observe('permutation')
                ck.expect(np.array_equal(h, h3) and np.array_equal(e, e3), key + '-order',
                          'the order of the samples changes the histogram', wit)


def spec_width():
    d = sample(False)
    nb = int(rng.integers(1, 30)) if rng.random() < .9 else int(rng.integers(130, 700))
    lo, bw = d.min(), np.ptp(d) / nb
    e = np.linspace(d.min(), d.max(), nb + 1)
    for mode, (p, q) in MODES.items():
        wit = {'data': d, 'nb': nb, 'mode': mode}
        calls = {
            'numpy': lambda x: hj.histogram_spec_width(x, nb, p, q),
            'blas': lambda x: hj.histogram_blas_spec_width(x, bw, nb, 0.0, p, q, min_nr_bins=nb),
            'numexpr': lambda x: hj.histogram_numexpr_spec_width(x, bw, 0.0, p, q, nr_bins=nb,
                                                                 min_nr_bins=nb),
            'cython': lambda x: hj.histogram_cython_spec_width(x, bw, 0.0, p, q, nr_bins=nb,
                                                               min_nr_bins=nb),
            'cython-par': lambda x: hj.histogram_cython_spec_width(
                x, bw, 0.0, p, q, nr_bins=nb, min_nr_bins=nb, use_parallel=True),
        }
        for name, f in calls.items():
            key = f'width-{name}-{mode}'
            ck.case('spec-width', (name, mode, d, nb), {'impl': name, 'mode': mode, 'n': len(d), 'bins': nb})
            with ck.guard(key + '-raised', witness=wit):
                x = d.copy()
                h = f(x)
                ck.expect(np.array_equal(x, d), key + '-input', 'sample modified', wit)
                judge(key, h, e, d, mode, False, wit)
        # a grid that starts below the data and ends above it
        if nb > 1:
            l2, n2 = lo - 1.37 * bw, nb + 3
            e2 = l2 + bw * np.arange(n2 + 1)
            calls = {
                'blas': lambda x: hj.histogram_blas_spec_width(
                    x, bw, n2, 0.0, p, q, min_nr_bins=n2, my_data_min=l2, additional_checks=True),
                'numexpr': lambda x: hj.histogram_numexpr_spec_width(
                    x, bw, 0.0, p, q, nr_bins=n2, min_nr_bins=n2, my_data_min=l2),
                'cython': lambda x: hj.histogram_cython_spec_width(
                    x, bw, 0.0, p, q, nr_bins=n2, min_nr_bins=n2, my_data_min=l2),
                'cython-par': lambda x: hj.histogram_cython_spec_width(
                    x, bw, 0.0, p, q, nr_bins=n2, min_nr_bins=n2, my_data_min=l2,
                    use_parallel=True),
            }
            for name, f in calls.items():
                key = f'offset-{name}-{mode}'
                ck.case('spec-offset', (name, mode, d, nb))
                with ck.guard(key + '-raised', witness=wit):
                    judge(key, f(d.copy()), e2, d, mode, False, wit)


def spec_edges():
    d = sample(True)
    nb = int(rng.integers(1, 30)) if rng.random() < .9 else int(rng.integers(130, 700))
    la, lb = np.log10(d.min()), np.log10(d.max())
    pad = (lb - la) * rng.choice([0.0, 0.3, 1.0], size=2) + 1e-9
    e = np.logspace(la - pad[0], lb + pad[1], nb + 1)
    for mode, (p, q) in MODES.items():
        wit = {'data': d, 'edges': e, 'mode': mode}
        calls = {
            'numpy': lambda x, y: hj.histogram_log_spec_edges(x, y, p, q),
            'blas': lambda x, y: hj.histogram_blas_log_spec_edges(x, y, p, q),
            'numexpr': lambda x, y: hj.histogram_numexpr_log_spec_edges(x, y, p, q),
            'cython': lambda x, y: hj.histogram_cython_log_spec_edges(x, y, p, q),
            'cython-par': lambda x, y: hj.histogram_cython_log_spec_edges(x, y, p, q,
                                                                          use_parallel=True),
        }
        for name, f in calls.items():
            key = f'edges-{name}-{mode}'
            ck.case('spec-edges', (name, mode, d, e), {'impl': name, 'mode': mode, 'n': len(d), 'bins': nb})
            with ck.guard(key + '-raised', witness=wit):
                x, y = d.copy(), e.copy()
                h = f(x, y)
                ck.expect(np.array_equal(x, d) and np.array_equal(y, e), key + '-input',
                          'an input array was modified', wit)
                judge(key, h, e, d, mode, True, wit)
    for f in (hj.histogram_log_spec_edges, hj.histogram_blas_log_spec_edges,
              hj.histogram_numexpr_log_spec_edges, hj.histogram_cython_log_spec_edges):
        with ck.guard('edges-none'):
            ck.expect(f(None, e, True) is None and f(d, None, True) is None
                      and f(np.array([]), e, True) is None
                      and f(-d, e, True, negative_values=True) is None, 'edges-none',
                      'samples that cannot be binned give a histogram', d)


def ties():
    """Samples exactly on edges: the bin they start (linear) or end (log) holds them."""
    nb = int(rng.choice([2, 3, 4, 5, 8, 16, 31]))
    bw = 2.0 ** int(rng.integers(-6, 7))
    lo = bw * int(rng.integers(-40, 40))
    e = lo + bw * np.arange(nb + 1)
    n = int(rng.integers(2, 60))
    k = rng.integers(0, nb + 1, size=n)
    d = np.concatenate([[e[0], e[-1]], e[k], lo + bw * (rng.integers(0, nb, size=n) + 0.5)])
    d = rng.permutation(d)
    want = np.array([np.sum((d >= a) & (d < b)) for a, b in zip(e[:-1], e[1:])], dtype=float)
    want[-1] += np.sum(d == e[-1])
    x = d.copy()
    wit = {'data': d, 'edges': e}
    calls = {
        'numpy': lambda: hj.histogram_spec_width(x, nb, False, False),
        'blas': lambda: hj.histogram_blas_spec_width(x, bw, nb, 0.0, False, False, min_nr_bins=nb),
        'numexpr': lambda: hj.histogram_numexpr_spec_width(x, bw, 0.0, False, False, nr_bins=nb,
                                                           min_nr_bins=nb),
        'cython': lambda: hj.histogram_cython_spec_width(x, bw, 0.0, False, False, nr_bins=nb,
                                                         min_nr_bins=nb),
        'cython-par': lambda: hj.histogram_cython_spec_width(
            x, bw, 0.0, False, False, nr_bins=nb, min_nr_bins=nb, use_parallel=True),
    }
    for name, (fn, kw) in LIN.items():
        calls['auto-' + name] = lambda fn=fn, kw=kw: fn(
            x, [5.0], [nb], empirical_probability=False, empirical_density=False, **kw)[0]
    for name, f in calls.items():
        ck.case('ties', (name, d, nb))
        with ck.guard(f'tie-{name}-raised', witness=wit):
            h = np.asarray(f(), dtype=float)
            ck.expect(np.array_equal(h, want), f'tie-{name}',
                      f'{h} instead of {want} samples in bins that contain their lower edge', wit)
    e = 2.0 ** (int(rng.integers(-20, 10)) + np.arange(nb + 1) * int(rng.integers(1, 4)))
    d = rng.permutation(np.concatenate([e[rng.integers(0, nb + 1, size=n)], 1.25 * e[rng.integers(0, nb, size=n)]]))
    want = np.array([np.sum((d > a) & (d <= b)) for a, b in zip(e[:-1], e[1:])], dtype=float)
    want[0] += np.sum(d == e[0])
    wit = {'data': d, 'edges': e}
    for name, f in (('numpy', hj.histogram_log_spec_edges), ('blas', hj.histogram_blas_log_spec_edges),
                    ('numexpr', hj.histogram_numexpr_log_spec_edges),
                    ('cython', hj.histogram_cython_log_spec_edges)):
        ck.case('ties', ('log' + name, d, nb))
        with ck.guard(f'logtie-{name}-raised', witness=wit):
            h = np.asarray(f(d.copy(), e.copy(), False, False), dtype=float)
            ck.expect(np.array_equal(h, want), f'logtie-{name}',
                      f'{h} instead of {want} samples in bins that contain their upper edge', wit)


def native_bins():
    """Native loops give the bin of every value, also of those below the first one."""
    from hogg_jacky.cython_jacky import cython_jacky_binning as b
    d = rng.normal(size=int(rng.integers(1, 300))) * 10 ** float(rng.uniform(-3, 3))
    low, width = float(rng.choice(d) + rng.normal() * d.std()), float(rng.uniform(.05, 2) * (d.std() + 1e-3))
    phase = float(rng.choice([0., rng.uniform(-2, 2)]))
    t = (d - low) / width - phase
    sure = np.abs(t - np.round(t)) > 1e-9 * (1 + np.abs(t))
    for way in ('serial', 'parallel'):
        f = getattr(b, f'cython_binning_{way}_loop', None)
        if f is None:
            continue
        ck.case('native bins', (way, d, low, width, phase))
        wit = dict(data=d, low=low, width=width, phase=phase)
        with ck.guard(f'native-{way}-raised', witness=wit):
            k = np.asarray(f(d.copy(), low, width, bin_phase=phase))
            ck.expect(k.shape == d.shape and np.array_equal(k[sure], np.floor(t[sure])), f'native-{way}',
                      'bin numbers are not those of the values', wit)


with contextlib.redirect_stdout(io.StringIO()):
    for _ in range(ck.n(60, 700)):
        ties()
        automatic(False)
        automatic(True)
        spec_width()
        spec_edges()
        native_bins()
ck.need('nan-removal', 100)
ck.finish()
