"""C20: quadratic coupling coefficients against a direct contraction of the strain tensors, with
symmetry, selection, scaling, profile and code-path monitors."""
import contextlib
import io
import itertools

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C20', 'one case = (star, three modes, conjugation, options); the oracle contracts the '
           'strain tensors of the three displacement fields numerically, from the input data')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.coupling_coefficients import QCCR  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.polytropic_computations import PaSi  # noqa: E402
from hough_function import HF  # noqa: E402
from vh.coupling import Mode, kappas  # noqa: E402
from vh.star import Polytrope  # noqa: E402

rng = ck.rng()
PLAIN = (False,) * 3


def make_star(r=None, npts=None):
    r = r or rng
    n = float(r.uniform(1.5, 3.5))
    gam = float(r.choice([5 / 3, 1.6, 1.75]))
    return Polytrope(n, gam, float(r.uniform(.9, .98)), npts or int(r.integers(80, 200)),
                     M=float(r.uniform(4e33, 2e34)), R=float(r.uniform(1e11, 5e11)),
                     grid=('uniform', 'quadratic', 'random')[int(r.integers(3))], rng=r)


def modes(P, lms, ws, rot, frame=b'INERTIAL', npts=200, units=b'RAD_PER_SEC'):
    out = []
    for (l, m), w in zip(lms, ws):
        h = HF(nu=2 * rot / (w * P.w0), l=l, m=m, npts=npts, definition='lee_saio_equivalent')
        h()
        lam = -h._eigenvalue
        out.append(P.mode_dict(l, m, lam, w, P.eigen(l, lam, w), rot, frame=frame, units=units))
    return out


def coupler(ds, prof, **kw):
    fh = FH(*ds)
    fh.set_mode_nonadiabatic_info(*ds)
    return QCCR(*ds, prof, fh, [d['l'] for d in ds], [d['m'] for d in ds], **kw)


def compute(ds, prof, **kw):
    c = coupler(ds, prof, **kw)
    c.adiabatic_coupling_rot()
    return c


def structure(P, ds, add=None, cut=np.s_[1:-1]):
    d = ds[0]
    with np.errstate(all='ignore'):
        g = P.G * P.M_r / P.r ** 2
        drho = P.rho * (-P.rho * g / (d['Gamma_1'] * P.P) - P.N2 / g)
        s = dict(P=P.P, rho=P.rho, g=g, drho=drho)
        if add is not None:
            s['add'] = P.rho * add
    return {k: v[cut] for k, v in s.items()}


def poly_dict(P):
    d = {'n_poly': P.n, 'z': P.z, 'theta': P.theta, 'dtheta': P.dtheta,
         'Gamma_1': P.gamma * np.ones_like(P.x), 'G': P.G, 'n': len(P.x)}
    return d | PaSi([d], P.M, P.R).property_dict


ALLOWED_PLAIN = [t for t in itertools.product([(l, m) for l in (1, 2, 3) for m in range(-l, l + 1)],
                                              repeat=3)
                 if sum(m for _, m in t) == 0 and sum(l + abs(m) for l, m in t) % 2 == 0]
ALLOWED_CONJ = [t for t in itertools.product([(l, m) for l in (1, 2, 3) for m in range(-l, l + 1)],
                                             repeat=3)
                if t[0][1] == t[1][1] + t[2][1] and sum(l + abs(m) for l, m in t) % 2 == 0]


def draw_ws(k=3):
    return [float(w) for w in rng.choice([rng.uniform(.9, 2.2), rng.uniform(2.2, 5)], 1)
            * rng.uniform(.75, 1.3, k)]


def conj_of(kinds):
    return ['conj' if k else 'plain' for k in kinds]


COMPLEX = ('y_1', 'y_2', 'y_3', 'y_4', 'xi_r', 'xi_h', 'lag_L')
TERM = ('compression', 'third-order compression', 'strain', 'gravity')

# ---- the oracle, no conjugation or conjugated (parents/daughters), real and complex data
for it in range(ck.n(20, 130)):
    P = make_star()
    conj = PLAIN if it % 3 != 2 else (True, False, False)
    table = ALLOWED_PLAIN if conj == PLAIN else ALLOWED_CONJ
    lms = table[int(rng.integers(len(table)))]
    rot = float(rng.choice([1e-6, .02, .1, .25])) * P.w0
    ws = draw_ws()
    npts = int(rng.choice([100, 150, 200]))
    frame = (b'INERTIAL', b'COROTATING_I')[int(rng.integers(2))] if it % 4 == 3 else b'INERTIAL'
    cplx = it % 6 == 1
    wit = dict(n=P.n, gamma=P.gamma, npts=len(P.x), lms=lms, ws=ws, rot=rot / P.w0, conj=conj,
               complex=cplx, mu=npts, frame=frame)
    with ck.guard('raised', witness=wit):
        ds = modes(P, lms, ws, rot, frame=frame, npts=npts)
        if cplx:
            for i, d in enumerate(ds):
                d['y_1'] = d['y_1'] + .3j * (i + 1) * d['y_1'][::-1] * d['x']
                d['y_2'] = d['y_2'] * (1 + .2j * d['x'])
        add = rng.uniform(-1, 1) * (1 + P.x) / P.rho if it % 5 == 4 else None
        kw = dict(use_parallel=bool(rng.integers(2)), nr_omp_threads=int(rng.integers(1, 7)))
        c = coupler(ds, P.profile(add), conj_cc=conj, use_complex=cplx, npoints=npts, **kw)
        c.adiabatic_coupling_rot()
        st = structure(P, ds, add)
        md = [Mode(d, npts, cplx, rho=st['rho']) for d in ds]
        want, prof, size = kappas(md, st, conj_of(conj))
        got = np.asarray(c.coupling_terms_quadratic)
        ck.close(c.normalization_factors, [m.scale for m in md], 'normalisation',
                 'normalisation factors', wit, rtol=1e-9)
        if not cplx:
            ck.expect(np.max(np.abs(want.imag)) <= 1e-9 * np.max(size), 'oracle-imaginary',
                      'the reference is not real', wit)
        rule = None
        for t in range(4):
            tol = 1e-9 * size[t] + 1e-11 * np.max(size)
            if abs(got[t] - want[t]) <= tol:
                continue
            if any(conj):
                # only the azimuthal dependence of the selection rule conjugated?
                if rule is None:
                    rule = kappas(md, st)[0]
                if abs(got[t] - rule[t]) <= tol:
                    ck.violate('conjugated-azimuthal', f'{TERM[t]} term: azimuthal functions of the '
                               f'conjugated mode are not conjugated: {got[t]} instead of {want[t]}',
                               wit)
                    ck.observe('conjugated-azimuthal')
                    continue
            ck.violate(f'kappa-{t + 1}', f'{TERM[t]} term {got[t]} instead of {want[t]}',
                       dict(wit, got=got, want=want))
        # bookkeeping
        tot = c.coupling_coefficient
        ck.close(tot, got.sum(), 'total', 'total is not the sum of its terms', wit, rtol=1e-13,
                 scale=np.max(np.abs(got)))
        E = P.G * P.M ** 2 / P.R
        ck.close(c.normed_coupling_coefficient, tot / E, 'normed', 'normed coefficient is not the '
                 'coefficient over the mode energy', wit, rtol=1e-9, scale=abs(tot) / E)
        ck.close(c.eta_lee_coupling_coefficient, 2 * c.normed_coupling_coefficient, 'eta',
                 'eta is not twice the normed coefficient', wit, rtol=1e-13)
        ck.close(c.x, P.x[1:-1], 'x', 'radial coordinate', wit, rtol=1e-13)
        if it % 4 == 0:
            with contextlib.redirect_stderr(io.StringIO()):
                c.adiabatic_coupling_rot_profile(progress_bar=it % 8 == 4)
            full = np.asarray(c.coupling_coefficient_profile)
            ck.close(full[-1], tot, 'profile-surface', 'surface value of the profile', wit,
                     rtol=1e-12, scale=np.max(np.abs(got)))
            parts = np.array(c.normed_contributions_coupling_coefficient_profile) * E
            ck.close(parts.sum(axis=0), full, 'profile-sum', 'profile is not the sum of its terms',
                     wit, rtol=1e-9)
            ck.close(np.asarray(c.normed_coupling_coefficient_profile) * E, full, 'profile-normed',
                     'normed profile', wit, rtol=1e-9)
            if conj == PLAIN:
                for t in range(4):
                    ck.close(parts[t], prof[t] if cplx else prof[t].real, f'profile-{t + 1}',
                             f'profile of the {TERM[t]} term', wit,
                             rtol=1e-8, scale=size[t] + 1e-3 * np.max(size))
            ck.observe('profile')
    ck.case('oracle', (it, lms, conj, cplx))

# ---- selection: azimuthally forbidden triads vanish, latitudinally forbidden ones too
for it in range(ck.n(10, 60)):
    P = make_star(npts=80)
    rot = float(rng.choice([1e-6, .1])) * P.w0
    lms = [(int(l), int(rng.integers(-l, l + 1))) for l in rng.integers(1, 4, 3)]
    conj = [tuple(bool(b) for b in rng.integers(0, 2, 3)), (True, False, False)][it % 2]
    ok = sum(-m if c else m for (_, m), c in zip(lms, conj)) == 0
    even = sum(l + abs(m) for l, m in lms) % 2 == 0
    wit = dict(lms=lms, conj=conj, rot=rot / P.w0)
    with ck.guard('raised-selection', witness=wit):
        c = compute(modes(P, lms, draw_ws(), rot), P.profile(), conj_cc=conj)
        got = np.asarray(c.coupling_terms_quadratic)
        E = P.G * P.M ** 2 / P.R
        if not ok:
            ck.expect(np.all(got == 0), 'forbidden-azimuthal', f'forbidden triad couples: {got}', wit)
            ck.observe('forbidden')
        elif not even:
            ck.expect(np.all(np.abs(got) <= 1e-8 * E), 'forbidden-latitudinal',
                      f'equatorially antisymmetric product couples: {got / E}', wit)
            ck.observe('forbidden')
        else:
            ck.expect(np.any(got != 0), 'allowed', 'allowed triad does not couple', wit)
    ck.case('selection', (it, tuple(lms), conj))
for lms in [((2, 1), (1, 0), (1, 1)), ((2, 2), (2, 1), (1, 1)), ((1, 0), (1, 1), (1, -1))]:
    # equatorially odd in total
    if sum(l + abs(m) for l, m in lms) % 2 == 0:
        continue
    P = make_star(npts=80)
    with ck.guard('raised-selection', witness=lms):
        c = compute(modes(P, lms, draw_ws(), .05 * P.w0), P.profile(),
                    conj_cc=tuple(False for _ in lms) if sum(m for _, m in lms) == 0
                    else (True, False, False))
        E = P.G * P.M ** 2 / P.R
        ck.expect(np.all(np.abs(c.coupling_terms_quadratic) <= 1e-8 * E), 'forbidden-latitudinal',
                  'equatorially antisymmetric product couples', lms)
        ck.observe('forbidden')
    ck.case('selection', lms)

# ---- metamorphic: exchange, rescaling, options that must not matter, repeated calls
for it in range(ck.n(4, 24)):
    P = make_star(npts=int(rng.integers(70, 140)))
    conj = (PLAIN, (True, False, False))[it % 2]
    table = (ALLOWED_PLAIN, ALLOWED_CONJ)[it % 2]
    lms = table[int(rng.integers(len(table)))]
    rot = float(rng.choice([1e-6, .05, .2])) * P.w0
    ws = draw_ws()
    wit = dict(lms=lms, conj=conj, ws=ws, rot=rot / P.w0)
    with ck.guard('raised-metamorphic', witness=wit):
        ds = modes(P, lms, ws, rot)
        base = compute(ds, P.profile(), conj_cc=conj)
        ref = np.asarray(base.coupling_terms_quadratic)
        sc = np.max(np.abs(ref))

        def same(c, key, msg, rtol=1e-10):
            ck.close(np.asarray(c.coupling_terms_quadratic), ref, key, msg, wit, rtol=rtol, scale=sc)
        sw = compute([ds[0], ds[2], ds[1]], P.profile(), conj_cc=conj)
        same(sw, 'exchange', 'exchange of the daughters changes the coefficient')
        if conj == PLAIN:
            same(compute([ds[1], ds[2], ds[0]], P.profile(), conj_cc=conj), 'exchange-all',
                 'cyclic exchange changes the unconjugated coefficient')
        fac = rng.uniform(.1, 10, 3)
        scaled = []
        for d, f in zip(ds, fac):
            e = dict(d)
            for k in ('y_1', 'y_2', 'y_3', 'y_4', 'xi_r', 'xi_h', 'xi_r_dim', 'xi_h_dim', 'lag_L',
                      'lag_L_dim', 'eul_phi', 'deul_phi'):
                e[k] = d[k] * f
            scaled.append(e)
        same(compute(scaled, P.profile(), conj_cc=conj), 'rescaled', 'scale of the eigenfunctions '
             'changes the coefficient')
        flip = [dict(ds[0], y_1=-ds[0]['y_1'], y_2=-ds[0]['y_2']), ds[1], ds[2]]
        c = compute(flip, P.profile(), conj_cc=conj)
        ck.close(np.asarray(c.coupling_terms_quadratic), -ref, 'sign', 'sign of one eigenfunction is '
                 'not that of the coefficient', wit, rtol=1e-10, scale=sc)
        for thr in (1, 3, 8):
            same(compute(ds, P.profile(), conj_cc=conj, use_parallel=True, nr_omp_threads=thr),
                 'parallel', 'parallel evaluation differs')
        same(compute(ds, P.profile(), conj_cc=conj, use_complex=True), 'complex',
             'complex evaluation of real data differs')
        with contextlib.redirect_stdout(io.StringIO()):
            same(compute(ds, P.profile(), conj_cc=conj, store_debug=True), 'debug',
                 'storing debug information changes the coefficient')
        base.adiabatic_coupling_rot()
        same(base, 'repeated', 'second evaluation differs')
        same(compute(ds, P.profile(), conj_cc=conj, numerical_integration_method='simpson'),
             'simpson', 'Simpson rule deviates beyond truncation', rtol=.05)
        rd = compute(modes(P, lms, ws, rot, frame=b'COROTATING_I'), P.profile(), conj_cc=conj)
        same(rd, 'frame', 'frame of the input frequencies changes the coefficient', rtol=1e-8)
    ck.case('metamorphic', (it, lms, conj))

# ---- code paths: analytic/numerical polytropes, numerical derivatives, interpolated structures
for it in range(ck.n(3, 16)):
    P = Polytrope(float(rng.uniform(1.6, 3.4)), 5 / 3, float(rng.uniform(.9, .97)),
                  int(rng.integers(260, 340)))
    lms = ALLOWED_PLAIN[int(rng.integers(len(ALLOWED_PLAIN)))]
    rot = float(rng.choice([1e-6, .1])) * P.w0
    ws = [float(w) for w in rng.uniform(1.5, 4, 3)]
    wit = dict(n=P.n, lms=lms, ws=ws, rot=rot / P.w0, npts=len(P.x))
    with ck.guard('raised-path', witness=wit):
        ds = modes(P, lms, ws, rot)
        base = compute(ds, P.profile(), conj_cc=PLAIN)
        ref = np.asarray(base.coupling_terms_quadratic)
        _, _, size = kappas([Mode(d, rho=P.rho[1:-1]) for d in ds], structure(P, ds))
        sc = np.max(size)

        def near(c, key, rtol, scale=sc):
            ck.close(np.asarray(c.coupling_terms_quadratic), ref, key, 'coefficient of another code '
                     f'path ({key})', wit, rtol=rtol, scale=scale)
        pd = poly_dict(P)
        near(compute(ds, pd, conj_cc=PLAIN, polytropic=True, analytic_polytrope=True),
             'polytrope-analytic', 1e-7, size)
        near(compute(ds, pd, conj_cc=PLAIN, polytropic=True), 'polytrope', 1e-7, size)
        near(compute(ds, pd, conj_cc=PLAIN, polytropic=True, use_symbolic_derivatives=False),
             'polytrope-numerical', 3e-2)
        near(compute(ds, P.profile(), conj_cc=PLAIN, use_symbolic_derivatives=False),
             'numerical', 3e-2)
        near(compute(ds, P.profile(), conj_cc=PLAIN, use_brunt_def=False), 'no-brunt', 3e-2)
        near(compute(ds, pd, conj_cc=PLAIN, polytropic=True, use_brunt_def=False),
             'polytrope-no-brunt', 3e-2)
    ck.case('path', (it, lms))
for it in range(ck.n(2, 12)):
    n, cut = float(rng.uniform(1.6, 3.4)), float(rng.uniform(.9, .97))
    P, Q, S = (Polytrope(n, 5 / 3, cut, k) for k in (301, 801, 251))
    # as many points as the grid of the modes, but at other radii
    E = Polytrope(n, 5 / 3, cut, 301, grid='quadratic')
    lms = ALLOWED_PLAIN[int(rng.integers(len(ALLOWED_PLAIN)))]
    rot = .1 * P.w0
    ws = [float(w) for w in rng.uniform(1.5, 4, 3)]
    wit = dict(n=n, cut=cut, lms=lms, ws=ws)
    with ck.guard('raised-grids', witness=wit):
        ds = modes(P, lms, ws, rot)
        ref = np.asarray(compute(ds, P.profile(), conj_cc=PLAIN).coupling_terms_quadratic)
        _, _, size = kappas([Mode(d, rho=P.rho[1:-1]) for d in ds], structure(P, ds))
        sc = np.max(size)
        # the gravity term of the general path is the only one to use the structure
        an = dict(polytropic=True, analytic_polytrope=True)
        for key, T, kw, rtol in (('finer-profile', Q, {}, 1e-4), ('other-profile', E, {}, 1e-4),
                                 ('finer-analytic', Q, an, 2e-2), ('other-analytic', E, an, .15),
                                 ('finer-polytrope', Q, dict(polytropic=True), 2e-2),
                                 ('other-polytrope', E, dict(polytropic=True), .15)):
            c = compute(ds, poly_dict(T) if kw else T.profile(), conj_cc=PLAIN, **kw)
            ck.close(np.asarray(c.coupling_terms_quadratic), ref, key, 'structure on another grid '
                     'changes the coefficient', wit, rtol=rtol, scale=size)
        d3 = modes(S, lms, ws, rot)
        for pick in ((0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 1), (1, 0, 0)):
            dd = [(ds, d3)[k][i] for i, k in enumerate(pick)]
            big = P if 0 in pick else S
            c = compute(dd, big.profile(), conj_cc=PLAIN)
            ck.close(np.asarray(c.coupling_terms_quadratic), ref, 'mode-grids', 'modes on different '
                     'grids change the coefficient', dict(wit, pick=pick), rtol=5e-2, scale=sc)
        # complex eigenfunctions on different grids, as complex and as structured (re, im) arrays
        rows = []
        for dd in ([ds[0], ds[1], ds[2]], [ds[0], d3[1], ds[2]], [ds[0], d3[1], ds[2]]):
            dd = [dict(d) for d in dd]
            for i, d in enumerate(dd):
                im = .04 * (i + 1) * (1 + d['x'])
                for k in COMPLEX:
                    d[k] = d[k] * (1 + 1j * im)
                    if len(rows) == 2:
                        z = np.zeros(d[k].shape, [('re', float), ('im', float)])
                        z['re'], z['im'] = d[k].real, d[k].imag
                        d[k] = z
            c = compute(dd, P.profile(), conj_cc=PLAIN, use_complex=True)
            rows.append(np.asarray(c.coupling_terms_quadratic))
        ck.close(rows[2], rows[1], 'mode-grids-structured', 'structured arrays and complex arrays '
                 'give different coefficients', wit, rtol=1e-10, scale=sc)
        ck.close(rows[1], rows[0], 'mode-grids-complex', 'complex modes on different grids change '
                 'the coefficient', wit, rtol=5e-2, scale=sc)
        ck.expect(np.max(np.abs(rows[0].imag)) > 1e-6 * sc, 'oracle-complex', 'the imaginary parts '
                  'of the eigenfunctions have no influence', wit)
    ck.case('grids', (it, lms))

# ---- self-coupling path equals the general one
for it in range(ck.n(4, 20)):
    P = make_star(npts=120)
    l = (2, 2, 1, 3)[it % 4]
    w = float(rng.uniform(1, 5))
    rot = float(rng.choice([1e-6, .1, .2])) * P.w0
    wit = dict(l=l, w=w, rot=rot / P.w0)
    with ck.guard('raised-self', witness=wit):
        d = modes(P, [(l, 0)], [w], rot)[0]
        a = compute([d, dict(d), dict(d)], P.profile(), conj_cc=PLAIN)
        b = compute([d, dict(d), dict(d)], P.profile(), conj_cc=PLAIN, self_coupling=True)
        A, B = (np.asarray(c.coupling_terms_quadratic) for c in (a, b))
        _, _, size = kappas([Mode(d, rho=P.rho[1:-1])] * 3, structure(P, [d]))
        for t in range(4):
            ck.close(B[t], A[t], f'self-{t + 1}', f'self-coupling {TERM[t]} term', wit, rtol=1e-9,
                     scale=size[t] + 1e-2 * P.G * P.M ** 2 / P.R)
    ck.case('self-coupling', (it, l))
ck.need('oracle', 15)
ck.need('profile', 4)
ck.need('forbidden', 4)
ck.finish()
