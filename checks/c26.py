"""C26: whole runs of the solver (inlist, oscillation and stellar model files in, HDF5 file out)
against values derived from the synthetic star the files were made from."""
import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np
from astropy.constants import G as G_, M_sun, R_sun

from vh import build
from vh.report import Check

ck = Check('C26', 'one case = one triad of one run of the solver; a run = inlist + directories of '
           'generated files -> HDF5 file, every row of which is compared with the generating star')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv',
             'histogram_maker'])
from disc_integrator import di  # noqa: E402
from aerunners import solve_quadratic  # noqa: E402
from aesolver import QuadRotAESolver  # noqa: E402
from aesolver.coupling_coefficients import QCCR  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.polytropic_computations import PaSi  # noqa: E402
from hough_function import HF  # noqa: E402
from vh import pipeline as pl  # noqa: E402
from vh.amplitude import daughters_growth, rhs, three, two, verdict  # noqa: E402
from vh.runs import TRIADS, draw_modes, make_star, read, setup, solve  # noqa: E402

rng = ck.rng()
G = G_.cgs.value
ROOT = tempfile.mkdtemp(prefix='c26_')
ALIKE = [((2, 0), (1, 1), (1, -1)), ((3, 2), (2, 1), (1, 1))]
FORBIDDEN = [((2, 2), (1, 1), (1, 0)), ((2, 1), (1, 1), (1, 0)), ((1, 0), (1, 1), (1, -1))]


def trap(f, x):
    return np.sum((f[1:] + f[:-1]) * np.diff(x) / 2)


def hough(P, d, w, rot):
    """Normalised radial Hough function and its derivatives on the grid of the solver."""
    h = HF(nu=2 * rot / (w * P.w0), l=d['l'], m=d['m'], npts=200, lmbd=np.ravel(d['lambda']).real[0],
           lmbd_adjust=True, definition='lee_saio_equivalent')
    h()
    mu = np.asarray(h.mu_range)
    k = 1 / np.sqrt(2 * np.pi * trap(h.hr_range ** 2, mu))
    return mu, k * h.hr_range, k * h.hrp_range, k * h.hrpp_range


class Scripted:
    """The solver class for scripts (QuadRotAESolver) in the place of the grid solver."""

    def __new__(cls, sys_args, progress_bars=False, **kw):
        o = QuadRotAESolver(sys_args, cc_profile_selection_dict={}, compute_grid=True, **kw)
        return type('S', (), {'__call__': lambda _: o(progress_bars=progress_bars),
                              '__getattr__': lambda _, q: getattr(o, q)})()


def frequencies(P, ms, ws, rot, nad=False):
    """The eight frequency datasets of a row (Hz and rad/s)."""
    c = np.array(ws)
    i = c + np.array(ms) * rot / P.w0
    out = {}
    for fr, v in (('inert', i), ('corot', c)):
        out[f'{fr}_mode_omegas'], out[f'{fr}_mode_freqs'] = v * P.w0, v * P.w0 / (2 * np.pi)
        out[f'{fr}_dimless_mode_omegas'], out[f'{fr}_dimless_mode_freqs'] = v, v / (2 * np.pi)
    return {('nad_' if nad else '') + 'mode_frequency_info/' + k: v for k, v in out.items()}


def common_rows(d, want_n, lms, wit):
    got = [tuple(int(x) for x in r) for r in d['quantum_numbers/n']]
    ck.expect(len(got) == len(set(got)) and set(got) == want_n, 'triads',
              f'triads of radial orders {got} instead of {sorted(want_n)}', wit)
    return got


def run_star(k):
    P = make_star(rng)
    rot = float(rng.uniform(.01, .2)) * P.w0
    forbidden = k % 5 == 4
    lms = (FORBIDDEN if forbidden else TRIADS)[int(rng.integers(3 if forbidden else len(TRIADS)))]
    lo = rng.integers(8, 30, size=3)
    alike = k % 5 in (1, 3)
    if alike:
        # daughters of one radial order that differ in degree or azimuthal order only
        lms = ALIKE[k % 5 // 2]
        lo[2] = lo[1]
    elif lms[1] == lms[2]:
        lo[2] = lo[1] + int(rng.integers(0, 2))
    ranges = [(int(a), int(a + b)) for a, b in zip(lo, rng.integers(0, 2, size=3))]
    # (with rates for which the verdict on two modes is another one: a strongly damped parent)
    mul = [(-20., -.1, -.1)] if alike and k % 10 > 4 else []
    modes, every = draw_modes(rng, P, lms, ranges, rot, True, *mul)
    adiabatic = bool(rng.random() < .7)
    opts = {'coupling_coefficient.adiabatic': adiabatic,
            'coupling_coefficient.terms_cc_conj': [True, False, False],
            'computation.integration_method': str(rng.choice(['trapz', 'simpson'])),
            'computation.parallel_mode_coupling': bool(rng.integers(2)),
            'computation.angular.use_cheby': bool(rng.random() < .25), 'computation.angular.cheby_mul': 1,
            'computation.angular.blow_up_protect': bool(rng.random() < .3),
            'computation.display_progress': bool(rng.random() < .2),
            'coupling_coefficient.symbolic_profiles': bool(rng.random() < .7),
            'coupling_coefficient.brunt_def_profiles': bool(rng.random() < .7)}
    wit = dict(run=k, lms=lms, ranges=ranges, rot=rot / P.w0, n=P.n, **opts)
    root = os.path.join(ROOT, f'run{k}')
    T = pl.Tree(root)
    try:
        setup(T, lms, ranges, opts)
        for (l, m, n), (_, _, _, ad, nad) in every.items():
            nm = pl.mode_name(ad, n)
            pl.write_gyre(T.dirs['ad'] + 'M8_' + nm, ad)
            pl.write_gyre(T.dirs['nad'] + 'M8_' + nm, nad)
        # files of other modes, stars and kinds in the same directories
        for (l, m, n), (_, _, _, ad, nad) in list(every.items())[:2]:
            for l2, m2, n2, pre in ((l + 1, m, n, 'M8_'), (l, m, n + 40, 'M8_'), (l, m, n, 'M9_')):
                o = dict(nad, l=l2, m=m2, n_pg=-n2)
                for q in ('ad', 'nad'):
                    pl.write_gyre(T.dirs[q] + pre + pl.mode_name(o, n2), o)
        pl.write_mesa(T.dirs['mesa'] + 'M8_prof.dat', P.profile())
        other = P.profile()
        other['brunt_N2'] = other['brunt_N2'] * 3 + 1
        pl.write_mesa(T.dirs['mesa'] + 'M9_prof.dat', other)
        name = str(rng.choice(['inlist', 'mine', 'solve_M8'])) if rng.random() < .6 else None
        T.write_inlist(name or 'inlist', rng)
        solve(T, name, 'res')
        files = T.files()
        ck.expect(len(files) == 1, 'file', f'files written: {files}', wit)
        if not files:
            return
        d, a = read(files[0])
        # a second run gives the same numbers
        if rng.random() < .5:
            os.rename(files[0], os.path.join(root, 'first.h5'))
            solve(T, name, 'res')
            d2, a2 = read(T.files()[0])
            same = set(d) == set(d2) and all(
                np.array_equal(np.asarray(d[q]), np.asarray(d2[q]), equal_nan=np.asarray(d[q]).dtype.kind in 'fc')
                for q in d if not isinstance(d[q], h5py.Empty))
            ck.expect(same, 'repeat', 'a second run of the same inlist gives other numbers', wit)
            ck.observe('repeated run')
        other_solver(T, name, d, wit)
        rows(P, rot, lms, ranges, modes, adiabatic, opts, d, a, wit)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def other_solver(T, name, d, wit):
    """The solver class for scripts stores the numbers of the class the runs use."""
    if not hasattr(solve_quadratic, 'QuadraticAEGridSolver'):
        return
    shutil.rmtree(T.dirs['out'])
    os.makedirs(T.dirs['out'])
    with ck.guard('script-raised', witness=wit):
        solve(T, name, 'res', Scripted)
        d2, _ = read(T.files()[0])
        bad = sorted(set(d) ^ set(d2))
        for q in set(d) & set(d2):
            x, y = d[q], d2[q]
            if isinstance(x, h5py.Empty) or isinstance(y, h5py.Empty):
                same = type(x) is type(y)
            else:
                x, y = np.asarray(x), np.asarray(y)
                if x.dtype.kind in 'fc' and x.shape == y.shape:
                    big = np.abs(x[np.isfinite(x)]).max(initial=0.)
                    same = np.allclose(x, y, rtol=1e-9, atol=1e-10 * big, equal_nan=True)
                else:
                    same = np.array_equal(x, y)
            if not same:
                bad.append(q)
        ck.expect(not bad, 'script-class', f'QuadRotAESolver stores other numbers: {bad[:5]}', wit)
        ck.observe('run of the solver class for scripts')


def kwargs(opts, conj):
    o = lambda q: opts[q]                                     # noqa: E731
    return dict(use_brunt_def=o('coupling_coefficient.brunt_def_profiles'),
                use_symbolic_derivatives=o('coupling_coefficient.symbolic_profiles'),
                use_parallel=False, numerical_integration_method=o('computation.integration_method'),
                use_cheby_integration=o('computation.angular.use_cheby'),
                cheby_order_multiplier=1, conj_cc=conj, cheby_blow_up_factor=1e5,
                cheby_blow_up_protection=o('computation.angular.blow_up_protect'))


def rows(P, rot, lms, ranges, modes, adiabatic, opts, d, a, wit):
    want_n = set(itertools.product(*(range(x, y + 1) for x, y in ranges)))
    got = common_rows(d, want_n, lms, wit)
    ell, m = [x for x, _ in lms], [x for _, x in lms]
    for q, v in (('l', ell), ('m', m), ('k', [x - abs(y) for x, y in lms])):
        ck.expect(list(map(int, a['quantum_numbers', q])) == v, 'numbers', f'{q} = {a["quantum_numbers", q]}', wit)
    allowed = m[0] == m[1] + m[2] and sum(x - abs(y) for x, y in lms) % 2 == 0
    st = 'coupling/stationary_three_mode/'
    for i, ns in enumerate(got):
        w3 = dict(wit, radial_orders=ns)
        md = [modes.get((p, n)) for p, n in enumerate(ns)]
        if any(x is None for x in md):
            continue
        wa, wn = np.array([x[0] for x in md]), np.array([x[1] for x in md])
        g = np.array([x[2] for x in md])
        ck.case('allowed triad' if allowed else 'forbidden triad', w3)
        use = wa if adiabatic else wn
        with ck.guard('row-raised', witness=w3):
            f = frequencies(P, m, use, rot) | frequencies(P, m, wn, rot, True)
            for q, v in f.items():
                ck.close(d[q][i], v, 'frequency', q, w3, rtol=1e-12)
            ck.close(d['rotation/spin_factors'][i], 2 * rot / (use * P.w0), 'spin', 'spin factors', w3, rtol=1e-12)
            ck.close(d['rotation/surface_rotation_frequency'][i], rot / (2 * np.pi), 'rotation',
                     'surface rotation frequency', w3, rtol=1e-12)
            ck.close(d['linear_driving/driving_rates'][i], g, 'rates', 'driving rates', w3, rtol=1e-12)
            ck.close(d['linear_driving/quality_factors'][i], use * P.w0 / g, 'quality', 'quality factors',
                     w3, rtol=1e-11)
            W = use * P.w0
            delta, gam = W[0] - W[1] - W[2], g.sum()
            eps = 1e-14 * (W.sum() + 10 * rot) / abs(delta)
            ck.close(d[st + 'detunings'][i], delta, 'detuning', 'detuning', w3, rtol=1e-10 + eps)
            ck.close(d[st + 'gammas'][i], gam, 'gamma', 'sum of rates', w3, rtol=1e-11, scale=np.abs(g).max())
            ck.close(d[st + 'q_factors'][i], delta / gam, 'q', 'q factor', w3,
                     rtol=1e-9 + eps + 1e-11 * np.abs(g).max() / abs(gam))
            ck.expect(int(d['mode_statistics/wu'][i]) == ns[0] - abs(ns[1] - ns[2]), 'wu', 'statistics', w3)
            harmonic = lms[1] == lms[2] and ns[1] == ns[2]
            par = bool(g[0] > 0 > max(g[1:]))
            direct = bool(g[0] < 0 < min(g[1:]))
            if harmonic and (par or direct):
                v = verdict(two(W, g[:2], delta, 1.)[0])
                th = -g[1] / g[0]
                p_, m_ = 2 * th * (th - 1) + 1, 2 * th * (th - 1) - 1
                if par and m_ > 0 and m_ / p_ < (delta / gam) ** 2 < p_ / m_:
                    v = None                 # known finding of C14
            elif par:
                v = verdict(three(W, g, delta, 1.)[0])
            else:
                v = False
            pc = [bool(x) for x in d['checks/pre_checks'][i]]
            ck.expect(pc[:4] == [par, direct, bool(min(g) > 0), bool(gam < 0)], 'kind',
                      f'kind of resonance {pc}', w3)
            if v is None:
                continue
            eq = bool(v and allowed)
            ck.observe('equilibrated' if eq else 'not equilibrated')
            ck.expect(pc[4] == eq, 'stable', f'equilibrated flag {pc[4]}', w3)
            amps = np.asarray(d[st + 'equilibrium_theoretical_amplitudes'][i], float)
            flux = np.asarray(d[st + 'surface_flux_variations'][i], float)
            ac, phi = d[st + 'critical_parent_amplitudes'][i], d[st + 'stationary_relative_phases'][i]
            kap, eta = d['coupling/generic/|kappa|'][i], d['coupling/generic/|eta|'][i]
            if not eq:
                ck.expect(not amps.any() and not flux.any() and np.isnan(ac) and np.isnan(phi), 'no-solution',
                          'numbers for a triad without stable stationary state', w3)
                if not pc[4]:
                    ck.expect(kap == 0 and eta == 0, 'no-coupling', 'coupling of a rejected triad', w3)
                continue
            dn = [dict(x[4], freq_units=b'RAD_PER_SEC') for x in md]
            ds = [dict(x[3], freq_units=b'RAD_PER_SEC') for x in md] if adiabatic else dn
            fh = FH(*ds)
            fh.set_mode_nonadiabatic_info(*dn)
            c = QCCR(*ds, P.profile(), fh, ell, m, use_complex=False, **kwargs(opts, (True, False, False)))
            c.adiabatic_coupling_rot()
            terms, tt = np.asarray(c.coupling_terms_quadratic), d['coupling/generic/quadratic_terms'][i]
            big = np.abs(terms).max()
            ck.close(tt, terms, 'terms', 'coupling terms', w3, rtol=1e-8, scale=big)
            ck.close(kap, terms.sum(), 'kappa', 'coupling coefficient', w3, rtol=1e-8, scale=big)
            E = G * P.M ** 2 / P.R
            ck.close(d['coupling/generic/|kappa_norm|'][i], terms.sum() / E, 'kappa-norm', 'normed coupling '
                     'coefficient', w3, rtol=1e-8, scale=big / E)
            ck.close(eta, 2 * terms.sum() / E, 'eta', 'eta', w3, rtol=1e-8, scale=big / E)
            nf = np.asarray(c.normalization_factors)
            ck.close(d['normalization/radial'][i], nf, 'normalisation', 'normalisation factors', w3, rtol=1e-8)
            if abs(eta) > 1e-4 * big / E:
                e = abs(float(eta))
                res = np.minimum(*(np.abs(rhs(amps, phi, W, g, delta, s * e)) for s in (1, -1)))
                scale = np.array([*(np.abs(g) * amps), abs(delta) + np.abs(g).sum()])
                ck.expect(np.all(amps > 0) and np.all(res < (1e-7 + 100 * eps) * scale), 'fixed-point',
                          f'amplitudes {amps} are not stationary: {res / scale}', w3)
                lo, hi = (daughters_growth(ac * x, W, g, delta, e) for x in (1 - 1e-4, 1 + 1e-4))
                ck.expect(ac > 0 and lo < 0 < hi, 'threshold', f'growth rates {lo}, {hi} about the threshold', w3)
            if not opts['computation.angular.use_cheby']:
                for j, x in enumerate(md):
                    h = hough(P, x[3], use[j], rot)
                    tk, ek = di.get_integrals(*map(np.ascontiguousarray, h), 'eddington',
                                              opts['computation.integration_method'], 1, False)
                    lum = x[4]['lag_L'][-1] * nf[j]
                    xir = complex(x[3]['xi_r'][-1]) * nf[j]
                    t = amps[j] * (abs(tk * lum) + abs(ek * xir))
                    ck.close(flux[j], amps[j] * abs(tk * lum - ek * xir), 'flux', f'surface flux variation of '
                             f'mode {j + 1}', w3, rtol=1e-7, scale=t)
            if not harmonic:
                ck.expect(pc[5], 'hyperbolic', 'stable state reported as not hyperbolic', w3)


def poly_dict(P):
    d = {'n_poly': P.n, 'z': P.z, 'theta': P.theta, 'dtheta': P.dtheta,
         'Gamma_1': P.gamma * np.ones_like(P.x), 'G': P.G, 'n': len(P.x)}
    return d | PaSi([d], P.M, P.R).property_dict


def run_polytrope(k):
    mass, radius = float(rng.uniform(2, 9)), float(rng.uniform(1.5, 6))
    P = make_star(rng, M=mass * M_sun.cgs.value, R=radius * R_sun.cgs.value)
    rot = float(rng.uniform(.01, .2)) * P.w0
    lms = TRIADS[int(rng.integers(len(TRIADS)))]
    lo = rng.integers(8, 30, size=3)
    if lms[1] == lms[2]:
        lo[2] = lo[1] + int(rng.integers(0, 2))
    ranges = [(int(a), int(a + b)) for a, b in zip(lo, rng.integers(0, 2, size=3))]
    modes, every = draw_modes(rng, P, lms, ranges, rot, False)
    opts = {'coupling_coefficient.adiabatic': True, 'coupling_coefficient.compute_for_polytrope': True,
            'coupling_coefficient.analytic_polytrope': bool(rng.integers(2)),
            'coupling_coefficient.terms_cc_conj': [True, False, False], 'POLY_model.mass': mass,
            'POLY_model.radius': radius,
            'computation.integration_method': str(rng.choice(['trapz', 'simpson'])),
            'computation.parallel_mode_coupling': bool(rng.integers(2)),
            'computation.angular.use_cheby': False, 'computation.angular.cheby_mul': 1,
            'computation.angular.blow_up_protect': bool(rng.random() < .3),
            'coupling_coefficient.symbolic_profiles': bool(rng.random() < .7),
            'coupling_coefficient.brunt_def_profiles': bool(rng.random() < .7)}
    wit = dict(run=f'polytrope {k}', lms=lms, ranges=ranges, rot=rot / P.w0, n=P.n, **opts)
    root = os.path.join(ROOT, f'poly{k}')
    T = pl.Tree(root)
    try:
        setup(T, lms, ranges, opts)
        T.set('POLY_selection.specifier.modes', 'x')
        for (l, m, n), (_, _, _, ad, _) in every.items():
            e = dict(ad, freq=ad['freq'] / P.w0)
            pl.write_poly_mode(T.dirs['pmode'] + 'M8_' + pl.mode_name(e, n), e)
            for l2, n2, pre in ((l + 1, n, 'M8_'), (l, n + 40, 'M8_'), (l, n, 'M9_')):
                o = dict(e, l=l2, n_pg=-n2, freq=e['freq'] * 1.5)
                if (l2, m, n2) not in every or pre == 'M9_':
                    pl.write_poly_mode(T.dirs['pmode'] + pre + pl.mode_name(o, n2), o)
        pl.write_poly_struct(T.dirs['pstruct'] + 'poly_n_3.h5', P)
        T.write_inlist('inlist', rng)
        solve(T, None, 'res')
        files = T.files()
        ck.expect(len(files) == 1, 'file', f'files written: {files}', wit)
        if not files:
            return
        d, a = read(files[0])
        other_solver(T, None, d, wit)
        ell, m = [x for x, _ in lms], [x for _, x in lms]
        got = common_rows(d, set(itertools.product(*(range(x, y + 1) for x, y in ranges))), lms, wit)
        extra = [q for q in d if q.startswith(('nad_', 'linear_driving', 'checks', 'coupling/stationary'))]
        ck.expect(not extra, 'polytrope-nonadiabatic', f'nonadiabatic quantities of a polytrope: {extra}', wit)
        for i, ns in enumerate(got):
            md = [modes.get((p, n)) for p, n in enumerate(ns)]
            if any(x is None for x in md):
                continue
            w3 = dict(wit, radial_orders=ns)
            ck.case('polytropic triad', w3)
            use = np.array([x[0] for x in md])
            with ck.guard('row-raised', witness=w3):
                for q, v in frequencies(P, m, use, rot).items():
                    ck.close(d[q][i], v, 'polytrope-frequency', q, w3, rtol=1e-12)
                ck.close(d['rotation/spin_factors'][i], 2 * rot / (use * P.w0), 'polytrope-spin', 'spin factors',
                         w3, rtol=1e-12)
                ds = [dict(x[3], freq_units=b'RAD_PER_SEC') for x in md]
                c = QCCR(*ds, poly_dict(P), FH(*ds), ell, m, use_complex=False, polytropic=True,
                         analytic_polytrope=opts['coupling_coefficient.analytic_polytrope'],
                         **kwargs(opts, (True, False, False)))
                c.adiabatic_coupling_rot()
                terms = np.asarray(c.coupling_terms_quadratic)
                big, E = np.abs(terms).max(), G * P.M ** 2 / P.R
                ck.close(d['coupling/generic/quadratic_terms'][i], terms, 'polytrope-terms', 'coupling terms',
                         w3, rtol=1e-8, scale=big)
                for q, v in (('|kappa|', 1), ('|kappa_norm|', 1 / E), ('|eta|', 2 / E)):
                    ck.close(d['coupling/generic/' + q][i], terms.sum() * v, 'polytrope-coupling', q, w3,
                             rtol=1e-8, scale=big * v)
                ck.close(d['normalization/radial'][i], np.asarray(c.normalization_factors),
                         'polytrope-normalisation', 'normalisation factors', w3, rtol=1e-8)
    finally:
        shutil.rmtree(root, ignore_errors=True)


for k in range(ck.n(3, 25)):
    with ck.guard('polytrope-raised', witness=dict(run=k)):
        run_polytrope(k)
for k in range(ck.n(10, 80)):
    with ck.guard('run-raised', witness=dict(run=k)):
        run_star(k)
shutil.rmtree(ROOT, ignore_errors=True)
ck.need('equilibrated', 5)
ck.finish()
