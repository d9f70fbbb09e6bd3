"""C09: the automatic histogram picks the jackknife optimum, in every implementation."""
import contextlib
import io

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C09', 'one case = one (implementation, sample, candidate grid) call; candidate '
           'grids are small duels between candidates of similar reference likelihood and '
           'large grids; the reference likelihood is computed independently')
build.setup(['histogram_maker'])
import hogg_jacky as hj  # noqa: E402

LIN = {
    'numpy': (hj.histogram_likelihood_numpy, {}), 'iter': (hj.histogram_likelihood_iter, {}),
    'blas': (hj.histogram_likelihood_blas, {}), 'numexpr': (hj.histogram_likelihood_numexpr, {}),
    'cython': (hj.histogram_likelihood_cython, {}),
    'cython-par': (hj.histogram_likelihood_cython, {'use_parallel': True}),
}
LOG = {
    'iter': (hj.log_histogram_likelihood_iter, {}), 'blas': (hj.log_histogram_likelihood_blas, {}),
    'numexpr': (hj.log_histogram_likelihood_numexpr, {}),
    'cython': (hj.log_histogram_likelihood_cython, {}),
    'cython-par': (hj.log_histogram_likelihood_cython, {'use_parallel': True}),
}
rng = ck.rng()


def reference(d, nb, log):
    """Counts and widths, or None when a sample lies on an inner edge (either side is right)."""
    x = np.log10(d) if log else d
    t = (x - x.min()) / np.ptp(x) * nb
    inner = t[(x != x.min()) & (x != x.max())]
    if np.any(np.abs(inner - np.round(inner)) < 1e-7 * nb):
        return None
    c = np.bincount(np.minimum(np.floor(t).astype(int), nb - 1), minlength=nb).astype(float)
    e = 10 ** np.linspace(x.min(), x.max(), nb + 1) if log else np.linspace(x.min(), x.max(), nb + 1)
    return c, np.diff(e)


def loglik(ref, alpha):
    """(value, defined for the code): empty bins contribute nothing."""
    c, w = ref
    tot = np.sum(c + alpha) - 1.0
    k = c > 0
    with np.errstate(all='ignore'):
        val = float(np.sum(c[k] * np.log((c[k] + alpha - 1.0) / (w[k] * tot))))
    return val, bool(np.all((c + alpha - 1.0) > 0)) and np.isfinite(val)


def sample(log):
    n = int(rng.choice([5, 12, 40, 150, 500]))
    k = rng.integers(0, 5)
    d = [lambda: rng.normal(size=n), lambda: rng.uniform(0, 1, size=n),
         lambda: rng.exponential(size=n), lambda: rng.standard_t(2, size=n),
         lambda: np.concatenate([rng.normal(size=n), 8 + 0.3 * rng.normal(size=n)])][k]()
    d = d * 10.0 ** rng.uniform(-6, 6)
    return np.abs(d) if log else d


def run(d, alphas, bins, log, kind):
    refs = {nb: reference(d, nb, log) for nb in bins}
    if any(r is None for r in refs.values()):
        return False
    cand = {(a, nb): loglik(refs[nb], a) for a in alphas for nb in bins}
    best = max((v for v, ok in cand.values() if ok), default=None)
    if best is None:
        return False
    full = d
    if rng.random() < 0.3:
        full = np.insert(d, rng.integers(0, len(d), size=3), np.nan)
    p, q = [(True, False), (False, True), (False, False)][rng.integers(0, 3)]
    verbose = bool(rng.random() < 0.3)
    out = {}
    for name, (fn, kw) in (LOG if log else LIN).items():
        tag = ('log-' if log else 'lin-') + name
        wit = {'impl': tag, 'data': full, 'alphas': alphas, 'bins': bins, 'verbose': verbose,
               'probability': p, 'density': q}
        ck.case(kind + ('-log' if log else '-lin'), (tag, full, alphas, bins),
                {'impl': tag, 'n': len(full), 'alphas': alphas, 'bins': bins})
        with ck.guard(f'{tag}-raised', witness=wit):
            with contextlib.redirect_stdout(io.StringIO()):
                h, e, bw, par = fn(full.copy(), alphas, bins, verbose=verbose,
                                   empirical_probability=p, empirical_density=q,
                                   return_binning_parameters=True, **kw)
                again = fn(full.copy(), alphas, bins, verbose=False,
                           empirical_probability=p, empirical_density=q, **kw)
            ck.expect(np.array_equal(h, again[0]) and again[3] is None, f'{tag}-again',
                      'the histogram depends on verbosity or on the call before', wit)
            got = (par['binning alpha'], int(par['nr of bins']))
            if not ck.expect(got in cand, f'{tag}-candidate', f'{got} is no candidate', wit):
                continue
            val = cand[got][0]
            ck.expect(val >= best - 1e-9 * max(1.0, abs(best)), f'{tag}-optimum',
                      f'chose {got} with log-likelihood {val!r}; the optimum is {best!r}', wit)
            ck.expect(par['binning phase'] == 0, f'{tag}-phase', f'phase {par}', wit)
            c, w = refs[got[1]]
            want = c / len(d) if p else (c / len(d) / w if q else c)
            ck.close(h, want, f'{tag}-hist', 'histogram of the chosen binning', wit, rtol=1e-7)
            out[tag] = (got, np.asarray(h, float), np.asarray(e, float), np.asarray(bw, float))
    tags = list(out)
    for t in tags[1:]:
        a, b = out[tags[0]], out[t]
        ck.observe('agreement')
        if a[0] != b[0]:
            tie = abs(cand[a[0]][0] - cand[b[0]][0]) <= 1e-9 * max(1.0, abs(best))
            ck.expect(tie, f'{t}-agree', f'{tags[0]} chose {a[0]}, {t} chose {b[0]}',
                      {'data': full, 'alphas': alphas, 'bins': bins})
        else:
            w = {'data': full, 'alphas': alphas, 'bins': bins}
            ck.close(b[1], a[1], f'{t}-agree', f'histogram of {t} differs from {tags[0]}', w, rtol=1e-9)
            ck.close(b[2], a[2], f'{t}-agree', f'edges of {t} differ from {tags[0]}', w, rtol=1e-9)
            ck.close(b[3], a[3], f'{t}-agree', f'widths of {t} differ from {tags[0]}', w, rtol=1e-7)
    return True


ALPHAS = [1.001, 1.1, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0]
for i in range(ck.n(45, 500)):
    log = bool(i % 2)
    d = sample(log)
    nmax = min(60, 2 * len(d))
    bins = sorted(set(int(b) for b in rng.integers(1, nmax + 1, size=12)))
    alphas = [float(a) for a in rng.choice(ALPHAS + [0.2, 0.7, 1.0], size=5, replace=False)]
    if rng.random() < 0.5:
        alphas = alphas[::-1]
    run(d, alphas, bins, log, 'grid')
    # duels between close candidates
    refs = {nb: reference(d, nb, log) for nb in bins}
    lik = sorted((loglik(r, a)[0], a, nb) for nb, r in refs.items() if r is not None
                 for a in ALPHAS if loglik(r, a)[1])
    pairs = []
    for j in range(len(lik) - 1):
        for m in range(j + 1, min(j + 6, len(lik))):
            x, y = lik[j], lik[m]
            gap = y[0] - x[0]
            if (x[1] == y[1] or x[2] == y[2]) and gap > 1e-6 * max(1, abs(x[0])):
                pairs.append((gap, x, y))
    pairs.sort(key=lambda t: t[0])
    for gap, x, y in pairs[:8]:
        if rng.random() < 0.5:
            x, y = y, x
        if x[1] == y[1]:
            run(d, [x[1]], [x[2], y[2]], log, 'duel')
        else:
            run(d, [x[1], y[1]], [x[2]], log, 'duel')

# samples that cannot be binned, and single samples
for log in (False, True):
    for name, (fn, kw) in (LOG if log else LIN).items():
        tag = ('log-' if log else 'lin-') + name
        with ck.guard(f'{tag}-degenerate'):
            ck.case('degenerate', tag)
            with contextlib.redirect_stdout(io.StringIO()):
                for d in (np.array([]), np.full(4, np.nan)):
                    r = fn(d, [2.0], [1, 2], **kw)
                    ck.expect(tuple(r) == (None,) * 4, f'{tag}-degenerate', f'{r} for {d}', d)
                r = fn(np.array([3.5]), [2.0], [1, 2], custom_bin_width=[0.25], verbose=True, **kw)
                ck.expect(np.array_equal(r[0], [1]) and r[1][0] <= 3.5 <= r[1][1]
                          and r[2] == 0.25 and r[3] is None, f'{tag}-single', f'{r}', None)
                if log:
                    r = fn(np.array([1.0, 2, 3]), [2.0], [1, 2], negative_values=True, **kw)
                    ck.expect(tuple(r) == (None,) * 4, f'{tag}-negative', f'{r}', None)
            for bad in ((None, [2.0], [1]), (np.ones(3), None, [1]), (np.ones(3), [2.0], None)):
                ck.raises(lambda: fn(*bad, **kw), f'{tag}-missing', 'missing input accepted', bad)
ck.need('duel-lin', 500)
ck.need('duel-log', 400)
ck.finish()
