"""C29: figures that compare adiabatic and nonadiabatic modes, and profiles of the stellar model, against the
generated files they are made from."""
import os
import re
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from astropy.constants import G as G_  # noqa: E402

from vh import build  # noqa: E402
from vh.report import Check  # noqa: E402

ck = Check('C29', 'one case = one comparison object on a generated directory tree; every curve it draws is compared '
           'with the values written to the files')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver import AdNadComparer, InputGen  # noqa: E402
from aesolver.ad_nad_comparer.plotting import GYREPlot, MESAPlot  # noqa: E402
from vh import pipeline as pl  # noqa: E402
from vh.star import Polytrope  # noqa: E402

rng = ck.rng()
G = G_.cgs.value
ROOT = tempfile.mkdtemp(prefix='c29_')
HOME = os.getcwd()
COLUMNS = ('h1', 'h2', 'he3', 'he4', 'brunt_N2', 'brunt_N2_structure_term', 'brunt_N2_composition_term', 'lamb_S2',
           'csound', 'hyeq_lhs', 'hyeq_rhs', 'gamma_1_adDer', 'log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum',
           'pressure', 'logRho', 'logT', 'grada', 'gradT', 'gradr', 'mass', 'radius')
PROFILES = [('h1', 'h2', 'he3', 'he4'), ('brunt_N2', 'brunt_N2_structure_term', 'brunt_N2_composition_term'),
            ('lamb_S2',), ('csound',), ('hyeq_lhs', 'hyeq_rhs', '-'), ('gamma_1_adDer',),
            ('log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum'), ('pressure',), ('logRho',), ('logT',),
            ('grada', 'gradT', 'gradr')]
UNITS = {b'HZ': 'Hz', b'UHZ': r'$\mu$Hz', b'CYC_PER_DAY': r'd$^{-1}$', b'RAD_PER_SEC': r'rad s$^{-1}$'}
NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?)'
NAMES = (('MESA base folder/directory', 'mesa_base'), ('MESA default output folder/directory', 'mesa'),
         ('MESA default profile substrings', ('M8', 'prof')), ('MESA default suffix', '"dat"'),
         ('GYRE base folder/directory', 'gyre'), ('GYRE default output folder/directory', 'gyre'),
         ('GYRE default detail substring', ('detail', 'M8')), ('GYRE default summary substring', '"summary"'))


def figures():
    """Axes of all open figures: title, labels, limits, lines."""
    out = []
    for n in plt.get_fignums():
        out.append([(ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(),
                     [(str(ln.get_label()), np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())) for ln in ax.lines])
                    for ax in plt.figure(n).axes])
    plt.close('all')
    return out


def same(a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b).max() + 1e-300)))


def show(v):
    return repr(np.asarray(v)[:3].tolist())


def draw_modes(T, P, rot, combos, ls, ms):
    """Files of all the modes (and of others) in both directories: {(kind, place, n): mode}."""
    modes, y = {}, {}
    unit = list(UNITS)[int(rng.integers(4))]
    keys = {(p, q[p]) for q in combos for p in range(3)}
    done = {}
    for p, n in sorted(keys):
        l, m = ls[p], ms[p]
        if (l, m, n) in done:
            for kind in ('ad', 'nad'):
                modes[kind, p, n] = done[l, m, n][kind]
            continue
        pair = {}
        frame = (b'INERTIAL', b'COROT_I')[int(rng.integers(2))]
        for kind in ('ad', 'nad'):
            w = float(rng.uniform(.3, 2))
            lam = float(rng.uniform(.5, 8))
            y = P.eigen(l, lam, w) * float(rng.uniform(.3, 3))
            d = P.mode_dict(l, m, lam, w, y, rot, n_pg=-n, frame=frame, units=unit,
                            imag=float(rng.uniform(-1, 1)), nad=0. if kind == 'ad' else 1e-3)
            M = np.sort(rng.uniform(0, 1, len(d['x'])))
            M[-1] = 1.
            d['M_r'] = M * d['M_star']
            for q in ('xi_r', 'xi_h'):
                d[q] = rng.normal(size=len(d['x'])) + 1j * rng.normal(size=len(d['x']))
            pl.write_gyre(T.dirs[kind] + 'M8_' + pl.mode_name(d, n), d)
            other = dict(d, xi_r=d['xi_r'] * 2, xi_h=d['xi_h'] * 3, n_pg=-n - 60, n_g=n + 60)
            pl.write_gyre(T.dirs[kind] + 'M8_' + pl.mode_name(other, n + 60), other)
            wrong = dict(d, xi_r=d['xi_r'] * 5, xi_h=d['xi_h'] * 7)
            pl.write_gyre(T.dirs[kind] + 'M9_' + pl.mode_name(wrong, n), wrong)
            pair[kind] = d
        done[l, m, n] = pair
        for kind in ('ad', 'nad'):
            modes[kind, p, n] = pair[kind]
    return modes


def write_info(T):
    path = os.path.join(T.repo, 'data', 'setup_data')
    os.makedirs(path, exist_ok=True)
    lines = []
    for name, v in NAMES:
        v = repr(T.dirs[v]) if v in T.dirs else f'({",".join(repr(q) for q in v)})' if isinstance(v, tuple) else v
        lines += [f'# {name}', v.replace('"', "'"), '']
    with open(os.path.join(path, 'information_folders.dat'), 'w') as f:
        f.write('\n'.join(lines))


def judge_modes(figs, ad, nad, by_radius, wit):
    if len(figs) != 6:
        ck.violate('figures', f'{len(figs)} figures of the three modes instead of six', wit)
        return
    for k, axes in enumerate(figs):
        p, q = k // 2, ('xi_r', 'xi_h')[k % 2]
        a, b = ad[p], nad[p]
        w = dict(wit, mode=p + 1, quantity=q)
        if len(axes) != 2:
            ck.violate('panels', f'{len(axes)} panels instead of two', w)
            continue
        for part, (title, xl, yl, lim, lines) in zip((np.real, np.imag), axes):
            name = part.__name__
            ck.expect([ln[0] for ln in lines] == ['adiabatic', 'non-adiabatic'], 'curve-labels',
                      f'curves labelled {[ln[0] for ln in lines]}', w)
            for d, (label, x, y) in zip((a, b), lines):
                X = d['x'] if by_radius else d['M_r'] / d['M_star']
                ck.expect(same(x, X), 'abscissa', f'{label} curve drawn against {show(x)} instead of {show(X)}', w)
                ck.expect(same(y, part(d[q])), 'curve', f'{label} {name} curve is {show(y)} instead of {show(part(d[q]))}', w)
                ck.observe('eigenfunction curve')
            ck.expect(('Re' in yl) == (part is np.real) and ('Im' in yl) == (part is np.imag)
                      and ('_R' in yl) == (q == 'xi_r') and ('_H' in yl) == (q == 'xi_h'), 'axis-label',
                      f'{name} of {q} is labelled {yl}', w)
            ck.expect(tuple(lim) == (0., 1.), 'limits', f'abscissa from {lim[0]} to {lim[1]}', w)
        lower = axes[1][1]
        ck.expect(lower.strip().startswith('r' if by_radius else 'm'), 'axis-label', f'abscissa labelled {lower}', w)
        title = axes[0][0]
        m = re.search(r'\(l,m,n\): \(\[*(-?\d+)\]*,\[*(-?\d+)\]*,\[*(-?\d+)\]*\)', title)
        want = tuple(int(a[q]) for q in ('l', 'm', 'n_g'))
        ck.expect(m is not None and tuple(map(int, m.groups())) == want, 'title', f'title {title!r} of mode {want}', w)
        ck.expect(UNITS[a['freq_units']] in title, 'title', f'title {title!r} lacks the unit {a["freq_units"]}', w)
        ck.expect(a['freq_frame'].decode().lower() in title, 'title', f'title {title!r} lacks the frame {a["freq_frame"]}', w)
        got = [(float(v), .51 * 10. ** (int((v + 'e0').split('e')[1]) - len(v.split('e')[0].partition('.')[2])))
               for v in re.findall(NUM, title[title.find(':', title.find('ad/nad')):title.find('frame')])]
        for d, kind in ((a, 'adiabatic'), (b, 'nonadiabatic')):
            f = float(np.real(np.ravel(d['freq'])[0])) * pl.UNIT[d['freq_units']]
            ck.expect(any(abs(v - f) <= digit + 1e-9 * abs(f) for v, digit in got), 'title', f'title {title!r} lacks the {kind} '
                      f'frequency {f}', w)


def judge_profiles(figs, prof, by_radius, wit):
    if len(figs) != len(PROFILES):
        ck.violate('profile-figures', f'{len(figs)} figures of profiles instead of {len(PROFILES)}', wit)
        return
    x = prof['radius' if by_radius else 'mass']
    x = x / x.max()
    for cols, axes in zip(PROFILES, figs):
        w = dict(wit, columns=cols)
        want = [prof[cols[0]] - prof[cols[1]]] if cols[-1] == '-' else [prof[q] for q in cols]
        lines = [ln for ax in axes for ln in ax[4]]
        ck.expect(len(lines) == len(want), 'profile-curves', f'{len(lines)} curves instead of {len(want)}', w)
        for (label, xx, yy), v, q in zip(lines, want, cols):
            ck.expect(same(xx, x), 'profile-abscissa', f'{q} drawn against {show(xx)} instead of {show(x)}', w)
            ck.expect(same(yy, v), 'profile-curve', f'{q} is {show(yy)} instead of {show(v)}', w)
            ck.observe('profile curve')
        for ax in axes:
            ck.expect(tuple(ax[3]) == (0., 1.), 'limits', f'abscissa from {ax[3][0]} to {ax[3][1]}', w)
            ck.expect(ax[1].strip().startswith('r' if by_radius else 'm'), 'axis-label', f'abscissa labelled {ax[1]}', w)


def bounds(lo, hi):
    """Limits in one of the accepted forms and their values."""
    return [(None, None), ((lo, hi), (lo, hi)), (dict(zip(('left', 'right') if lo < 0 else ('bottom', 'top'), (lo, hi))), (lo, hi)),
            ][int(rng.integers(3))]


def scaled(d, q, norm):
    return d[q] if norm is None else d[q] / (d[norm] if isinstance(norm, str) else norm[0](d[norm[1]]))


def direct_profiles(k):
    """Figures of any columns of any of several profiles, with the scales and limits that are asked for."""
    nr, n = int(rng.integers(1, 4)), int(rng.integers(2, 50))
    names = [f'q{i}' for i in range(6)]
    data = [{q: rng.uniform(.5, 2, n) * (-1) ** int(rng.integers(2)) for q in names} for _ in range(nr)]
    which = int(rng.integers(nr))
    pick = lambda: names[int(rng.integers(6))]  # noqa: E731
    norms = [None, pick(), ((max, min, np.mean)[int(rng.integers(3))], pick())]
    xn, yn = (norms[int(rng.integers(3))] for _ in range(2))
    kind = ('one', 'unlabelled', 'several', 'difference')[int(rng.integers(4))]
    xq = pick()
    ys = [str(q) for q in rng.permutation(names)[:2 if kind == 'difference' else int(rng.integers(1, 5)) if kind == 'several' else 1]]
    if kind == 'difference':
        yn = None
    labels = {'one': 'name', 'several': [f'L{q}' for q in ys]}.get(kind)
    xb, xlim = bounds(-1., 3.)
    yb, ylim = bounds(2., 5.)
    wit = dict(direct=k, kind=kind, x=xq, y=ys, x_scale=str(xn), y_scale=str(yn), profile=which)
    ck.case(f'figure of profiles: {kind}', wit)
    plt.close('all')
    d = data[which]
    with ck.guard('direct-profile', witness=wit):
        MESAPlot(mesa=data).figure_profile(
            x_quantity=xq, y_quantity=ys if kind in ('several', 'difference') else ys[0], x_label='abscissa', y_label='ordinate',
            quantity_diff=kind == 'difference', x_bounds=xb, y_bounds=yb, mode_nr=which, y_legend_labels=labels,
            x_normalizing_quantity=xn, y_normalizing_quantity=yn)
        legend = [ax.get_legend() for ax in plt.gcf().axes]
        legend = [t.get_text() for t in legend[0].get_texts()] if legend[0] is not None else None
        got_y = plt.gca().get_ylim()
        figs = figures()
        if len(figs) != 1 or len(figs[0]) != 1:
            ck.violate('direct-figures', f'{len(figs)} figures of {[len(q) for q in figs]} panels instead of one', wit)
            return
        _, xl, yl, lim, lines = figs[0][0]
        want = [d[ys[0]] - d[ys[1]]] if kind == 'difference' else [scaled(d, q, yn) for q in ys]
        ck.expect(len(lines) == len(want), 'direct-curves', f'{len(lines)} curves instead of {len(want)}', wit)
        for (_, xx, yy), v in zip(lines, want):
            ck.expect(same(xx, scaled(d, xq, xn)), 'direct-abscissa', f'drawn against {show(xx)} instead of {show(scaled(d, xq, xn))}', wit)
            ck.expect(same(yy, v), 'direct-curve', f'curve is {show(yy)} instead of {show(v)}', wit)
            ck.observe('curve asked for directly')
        ck.expect(legend == ([labels] if isinstance(labels, str) else labels), 'direct-legend', f'legend {legend} instead of {labels}', wit)
        ck.expect((xl, yl) == ('abscissa', 'ordinate'), 'direct-labels', f'axes labelled {xl, yl}', wit)
        for got, lims, name in ((lim, xlim, 'abscissa'), (got_y, ylim, 'ordinate')):
            ck.expect(lims is None or tuple(got) == lims, 'direct-limits', f'{name} from {got} instead of {lims}', wit)


def direct_modes(k):
    """One figure with one panel for any quantity of any mode."""
    n = int(rng.integers(2, 50))

    def mode():
        d = dict(l=int(rng.integers(1, 4)), m=int(rng.integers(-1, 2)), n_g=int(rng.integers(1, 99)), M_r=rng.uniform(0, 1, n),
                 M_star=2., freq=float(rng.uniform(.1, 9)), freq_units=b'HZ', freq_frame=b'INERTIAL', x=rng.uniform(0, 1, n), rho=rng.uniform(0, 1, n))
        return dict(d, **{q: np.rec.fromarrays(rng.normal(size=(2, n)), names='re,im') for q in ('xi_r', 'xi_h', 'eul_P')})

    ad, nad = [mode() for _ in range(3)], [mode() for _ in range(3)]
    nr = int(rng.integers(3))
    y = ('xi_r', 'xi_h', 'eul_P', 'rho', 'x', 'mass')[int(rng.integers(6))]
    x = ('x', 'mass', 'rho')[int(rng.integers(3))]
    part = None if y in ('rho', 'x', 'mass') else ('re', 'im')[int(rng.integers(2))]
    wit = dict(direct=k, x=x, y=y, part=part, mode=nr + 1)
    ck.case('figure of one quantity', wit)
    plt.close('all')
    with ck.guard('direct-mode', witness=wit):
        GYREPlot(gyre_ad=ad, gyre_nad=nad).figure_comparison(x_quantity=x, y_quantity=y, y_label='ordinate', mode_nr=nr + 1,
                                                             real_quantity_y=part if part is None else part == 're')
        figs = figures()
        if len(figs) != 1 or len(figs[0]) != 1:
            ck.violate('direct-figures', f'{len(figs)} figures of {[len(q) for q in figs]} panels instead of one', wit)
            return
        lines = figs[0][0][4]
        ck.expect([ln[0] for ln in lines] == ['adiabatic', 'non-adiabatic'], 'direct-labels', f'curves {[ln[0] for ln in lines]}', wit)
        value = lambda d, q: d['M_r'] / d['M_star'] if q == 'mass' else d[q]  # noqa: E731
        for (label, xx, yy), d in zip(lines, (ad[nr], nad[nr])):
            v = value(d, y) if part is None else d[y][part]
            ck.expect(same(xx, value(d, x)) and same(yy, v), 'direct-mode-curve', f'{label} curve is {show(yy)} against {show(xx)}', wit)
            ck.observe('curve asked for directly')


def run(k):
    P = Polytrope(n=float(rng.uniform(1.5, 3.5)), gamma=5 / 3, cut=float(rng.uniform(.9, .98)), G=G,
                  npts=int(rng.integers(20, 60)), M=float(rng.uniform(4e33, 2e34)), R=float(rng.uniform(1e11, 5e11)))
    rot = float(rng.uniform(.02, .2)) * P.w0
    ls = [int(v) for v in rng.integers(1, 4, 3)]
    ms = [int(rng.integers(-l, l + 1)) for l in ls]
    lo = [int(v) for v in rng.integers(5, 40, 3)]
    hi = [v + int(rng.integers(0, 3)) for v in lo]
    gen = InputGen(mode_l=ls, mode_m=ms, driven_n_low=lo[0], driven_n_high=hi[0], damped_n_low1=lo[1],
                   damped_n_high1=hi[1], damped_n_low2=lo[2], damped_n_high2=hi[2])
    combos = [tuple(q) for q in gen.combinations_radial_orders]
    wit = dict(run=k, l=ls, m=ms, lo=lo, hi=hi)
    T = pl.Tree(os.path.join(ROOT, f'r{k}'))
    try:
        pct = int(rng.integers(5, 60))
        named = bool(rng.random() < .5)
        paths = {}
        for kind, default in (('ad', f'output_rot_{pct}'), ('nad', f'output_nad_rot_{pct}')):
            paths[kind] = f'{kind}_{k}' if named else default
            T.dirs[kind] = os.path.join(T.dirs['gyre'], paths[kind]) + '/'
            os.makedirs(T.dirs[kind])
        modes = draw_modes(T, P, rot, combos, ls, ms)
        n = int(rng.integers(30, 80))
        prof = {q: rng.normal(size=n) * 10. ** rng.integers(-3, 12) for q in COLUMNS}
        for q in ('mass', 'radius'):
            prof[q] = np.sort(rng.uniform(0, 9, n))[::-1].copy()
        pl.write_mesa(T.dirs['mesa'] + 'M8_prof.dat', prof)
        pl.write_mesa(T.dirs['mesa'] + 'M8_pro.dat', {q: -v for q, v in prof.items()})
        write_info(T)
        os.chdir(T.repo)
        argv = [os.path.join(T.repo, 'run_scripts', 'compare.py')]
        kw = dict(ad_path=paths['ad'], nad_path=paths['nad']) if named else {}
        with ck.guard('construction', witness=wit):
            c = AdNadComparer(argv, pct, gen, base_dir=T.dirs['gyre'], **kw)
        for nr in [int(v) for v in rng.choice(len(combos), min(len(combos), 2), replace=False)]:
            w = dict(wit, combination=combos[nr])
            ck.case('named directories' if named else 'directories of the rotation rate', w)
            q = combos[nr]
            with ck.guard('loading', witness=w):
                c.load_modes(nr) if nr or rng.random() < .5 else c.load_modes()
            ad, nad = [[modes[kind, p, q[p]] for p in range(3)] for kind in ('ad', 'nad')]
            for by_radius in (True, False):
                plt.close('all')
                with ck.guard('figures', witness=w):
                    c.generate_mode_eigenfunction_comparison_figures(radius_profiles=by_radius)
                judge_modes(figures(), ad, nad, by_radius, dict(w, by_radius=by_radius))
                with ck.guard('profiles', witness=w):
                    c.generate_profile_figures(radius_profiles=by_radius)
                judge_profiles(figures(), prof, by_radius, dict(w, by_radius=by_radius))
    finally:
        os.chdir(HOME)
        plt.close('all')
        shutil.rmtree(T.root, ignore_errors=True)


for k in range(ck.n(4, 40)):
    with ck.guard('check-raised', witness=dict(run=k)):
        run(k)
for k in range(ck.n(12, 300)):
    with ck.guard('check-raised', witness=dict(direct=k)):
        direct_profiles(k)
        direct_modes(k)
shutil.rmtree(ROOT, ignore_errors=True)
ck.need('eigenfunction curve', 20)
ck.need('profile curve', 20)
ck.need('curve asked for directly', 20)
ck.finish()
