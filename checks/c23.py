"""C23: analysis masks against a brute-force reading of their criteria, with unrelated triads added
and rows permuted."""
import contextlib
import importlib
import io

import numpy as np

from vh import build
from vh.masks import reference, reference_threshold
from vh.report import Check

ck = Check('C23', 'one case = one generated result table (some hundred triads at most); all masks of '
                  'both packages against loops over the triads; non-trivial when the table contains '
                  'triads of both verdicts')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
ANA = importlib.import_module('ae_analyzer.library_functions')
PLO = importlib.import_module('aeplotter.library_functions')
rng = ck.rng()


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


# ---- generated tables
def table(n, npar, ndau, lo=10, unvalued=.2, sat=0.):
    ro = set()
    for _ in range(20 * n):
        if len(ro) >= n:
            break
        a, b = lo + rng.integers(0, ndau, 2)
        ro.add((int(lo + rng.integers(0, npar)), int(max(a, b)), int(min(a, b))))
    ro = np.array(sorted(ro, key=lambda _: rng.random()), dtype=np.int64).reshape(-1, 3)
    n = len(ro)
    thr = 10.0 ** rng.uniform(-3, 5, n)
    if n > 1 and rng.random() < .5:                  # thresholds that nearly agree
        to, of = rng.integers(0, n, (2, max(1, n // 3)))
        thr[to] = thr[of] * (1 + rng.choice([-1, 1], len(of)) * 10.0 ** rng.uniform(-11, -5, len(of)))
    thr[rng.random(n) < unvalued] = np.nan
    checks = rng.random((n, 6)) < rng.choice([.5, .8, .97])
    det = rng.choice([1e-3, .05, .1, 1.0]) * rng.standard_normal(n)
    at = rng.random(n) < .05
    det[at] = rng.choice([.1, -.1, 0.0, np.nextafter(.1, 1)], at.sum())
    surfs = 10.0 ** rng.uniform(-9 + sat, -2 + sat, (n, 3)) * rng.choice([1.0, 1e-3])
    return dict(rad_ord=-ro if rng.random() < .7 else ro, thresh_surf_ppm=thr, checks=checks,
                linear_omega_diff_to_min_omega=det, surfs=surfs,
                harmonic_mask=ro[:, 1] == ro[:, 2])


def rows(d, idx):
    return {k: v[idx].copy() for k, v in d.items()}


def join(a, b):
    return {k: np.concatenate([a[k], b[k]]) for k in a}


def same(got, want, key, msg, wit):
    got = np.asarray(got)
    ck.expect(got.dtype == np.bool_ and np.array_equal(got, want), key, msg,
              dict(wit, got=np.flatnonzero(np.atleast_1d(got) != want), want=np.flatnonzero(want)))


def all_masks(d, minimum, maximum):
    out = {}
    out['counts'] = quiet(ANA.get_mask_information_triad_counts, d)
    out['overview'] = quiet(PLO.theoretical_plotting_masks_overview, d)
    for mi, ma in ((None, None), (minimum, None), (None, maximum), (minimum, maximum)):
        out[f'split-{mi is not None}-{ma is not None}'] = quiet(
            PLO.isolated_non_isolated_stable_valid_masking, d, mi, ma)
    return out


def want_masks(d, minimum, maximum):
    stab, ae, iso = reference(d)
    nh = ~d['harmonic_mask']
    out = {'counts': (stab, ae, iso, ae & iso, stab & ae & iso)}
    sv = stab & ae & iso & nh
    out['overview'] = (stab & nh & ~ae & ~sv, stab & ae & nh & ~sv, sv)
    tl = reference_threshold(d, minimum)
    td = np.array([abs(float(x)) <= maximum for x in d['linear_omega_diff_to_min_omega']], bool)
    for mi, ma in ((None, None), (minimum, None), (None, maximum), (minimum, maximum)):
        m = np.ones_like(stab)
        m = m & tl if mi is not None else m
        m = m & td if ma is not None else m
        out[f'split-{mi is not None}-{ma is not None}'] = (stab & ae & iso & m, stab & ae & ~iso & m)
    return out


NAMES = {'counts': ('stability', 'detuning', 'isolation', 'validity', 'stability-validity'),
         'overview': ('only-stable', 'stable-detuning', 'stable-valid')}

for it in range(ck.n(400, 8000)):
    shape = it % 8
    if shape == 0:                                   # every parent and daughter once
        n = int(rng.integers(1, 12))
        o = rng.permutation(40)
        d = table(n, 5, 5)
        n = len(d['rad_ord'])
        d['rad_ord'] = np.stack([o[:n], o[n:2 * n], o[2 * n:3 * n]], 1) - 60
        d['harmonic_mask'][:] = False
    elif shape == 1:                                 # nothing valued at all
        d = table(int(rng.integers(1, 30)), 4, 6, unvalued=1.)
    elif shape == 2:
        d = table(1, 3, 3, unvalued=0.)
    elif shape == 3:                                 # most parents with one triad or none
        d = table(int(rng.integers(2, 12)), 15, 30, unvalued=.5)
    elif shape == 4:
        d = table(int(rng.integers(20, ck.n(80, 300))), 6, 14, sat=-3.)
    else:
        d = table(int(rng.integers(2, 60)), int(rng.integers(1, 12)), int(rng.integers(2, 25)),
                  unvalued=rng.choice([0., .2, .6]), sat=rng.choice([-6., -3., 0.]))
    if shape in (5, 6):
        # make some triads isolated on purpose: a private set of modes with the lowest thresholds
        k = int(rng.integers(1, 5))
        base = 200 + 3 * np.arange(k)
        iso = table(k, 40, 60, unvalued=0., sat=-8.)
        k = len(iso['rad_ord'])
        iso['rad_ord'] = np.stack([base[:k], base[:k] + 1, base[:k] + 2], 1)
        iso['harmonic_mask'][:] = False
        rival = rows(iso, np.arange(k))
        rival['rad_ord'][:, 1:] += 500
        rival['thresh_surf_ppm'] = iso['thresh_surf_ppm'] * 10.0 ** rng.uniform(.01, 2, k)
        if shape == 5:
            # some rivals have the very same threshold (and saturation amplitude of the parent),
            # and a third triad of the parent lies above the saturation amplitude
            tied = rng.random(k) < .6
            rival['thresh_surf_ppm'][tied] = iso['thresh_surf_ppm'][tied]
            third = rows(iso, np.arange(k))
            third['rad_ord'][:, 1:] += 700
            third['thresh_surf_ppm'] = iso['thresh_surf_ppm'] * 10.0 ** rng.uniform(2.1, 3, k)
            sat = iso['thresh_surf_ppm'] * 10.0 ** rng.choice([-1., 2.05], k) / 1e6
            for t in (iso, rival):
                t['surfs'][:, 0] = sat
            d = join(d, third)
            ck.observe('tied thresholds', int(tied.sum()))
        d = join(join(d, iso), rival)
    minimum = float(10.0 ** rng.uniform(-4, 2))
    maximum = float(rng.choice([1e-3, .03, .1]))
    n = len(d['rad_ord'])
    wit = dict(it=it, minimum=minimum, maximum=maximum, **d)
    keep = {k: v.copy() for k, v in d.items()}
    with ck.guard('refused', 'result table rejected', wit):
        got = all_masks(d, minimum, maximum)
        want = want_masks(keep, minimum, maximum)
        for k, w in want.items():
            for i, m in enumerate(w):
                nm = NAMES[k][i] if k in NAMES else f'{k}-{("isolated", "other")[i]}'
                same(got[k][i], m, f'mask-{nm}', f'the {nm} mask does not select the triads of its '
                     f'criterion', wit)
        ck.expect(all(np.array_equal(d[k], keep[k], equal_nan=k not in ('checks', 'harmonic_mask'))
                      for k in keep), 'changed', 'the masks change the data', wit)
        st, ae, iso = want['counts'][:3]
        ck.case(f'table-shape-{shape}', (it, n), dict(triads=n, isolated=int(iso.sum())),
                nontrivial=bool(0 < iso.sum() < n))
        ck.observe('triads', n)
        ck.observe('isolated triads', int(iso.sum()))
        ck.observe('stable, detuned and isolated triads', int(want['counts'][4].sum()))
        thr = keep['thresh_surf_ppm']
        pv = keep['rad_ord'][~np.isnan(thr), 0]
        ck.observe('parents with one valued triad', int((np.unique(pv, return_counts=True)[1] == 1)
                                                        .sum()))
        if it % 2:
            perm = rng.permutation(n)
            gp = all_masks(rows(keep, perm), minimum, maximum)
            for k in got:
                for a, b in zip(got[k], gp[k]):
                    same(b, np.asarray(a)[perm], f'order-{k}', 'verdict depends on the order of the '
                         'triads', wit)
            ck.observe('permuted tables')
        else:
            extra = table(int(rng.integers(1, 9)), 3, 5, unvalued=.3)
            extra['rad_ord'] = np.abs(extra['rad_ord']) + 5000
            ge = all_masks(join(extra, keep), minimum, maximum)
            m = len(extra['rad_ord'])
            for k in got:
                for a, b in zip(got[k], ge[k]):
                    same(np.asarray(b)[m:], np.asarray(a), f'unrelated-{k}', 'verdict depends on '
                         'unrelated triads', wit)
            ck.observe('tables with unrelated triads added')

ck.need('tied thresholds', 20)
ck.need('isolated triads', 50)
ck.need('parents with one valued triad', 50)
ck.need('stable, detuned and isolated triads', 10)
ck.finish()
