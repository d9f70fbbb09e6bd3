"""C27: analysis quantities derived from result files: loading, definitions, frequency locking,
counts printed and points drawn."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import numpy as np  # noqa: E402

from vh import build  # noqa: E402
from vh.masks import reference  # noqa: E402
from vh.report import Check  # noqa: E402
from vh.results import DAY, PATHS, analysed, derived, make_models  # noqa: E402

ck = Check('C27', 'one case = one generated set of result files loaded by the analyser or the plotter; '
                  'every derived quantity recomputed row by row from the numbers written')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv',
             'histogram_maker'])
import matplotlib.pyplot as plt  # noqa: E402
from ae_analyzer import QuadraticAEStationaryAnalyzer  # noqa: E402
from aeplotter import QuadraticAEPlotter  # noqa: E402

rng = ck.rng()
TMP = tempfile.mkdtemp(prefix='c27_')
NYQ = 283e-6 * DAY


def plotted(d):
    o, dw, g, gs, sh = derived(d)
    o['dimless_freq_ratio'] = None
    return o


def tables(obj):
    """The per-model tables of an analyser or plotter."""
    for v in vars(obj).values():
        if isinstance(v, list) and v and all(isinstance(x, dict) and 'thresh_surf_ppm' in x
                                             for x in v):
            return v
    raise LookupError('no per-model tables in the object')


def compare(got, want, wit, who):
    for k, w in want.items():
        if w is None:
            continue
        if not ck.expect(k in got, f'{who}-missing', f'{who}: no quantity "{k}"', wit):
            continue
        # differences of nearly equal frequencies carry the rounding of the frequencies
        sc = np.abs(w)
        if k.startswith(('rotation', 'spin')):
            at = 1e-11 * np.nanmax(np.abs(w), initial=0.) if np.ndim(w) else 0
            at = max(at, 1e-12 * (DAY if 'cpd' in k else 1e6 if 'muHz' in k else 1e3 if 'spin' in k
                                  else 1))
            at = at if 'spin' in k else at * 1e-4
            if not ck.close(got[k], w, f'{who}-{k}', f'{who}: "{k}" is not what its definition gives',
                            wit, rtol=1e-7, atol=at, scale=np.nanmax(sc, initial=0.)):
                continue
        elif 'nonlinear' in k or 'shift' in k or k in ('q', 'q1', 'q3') or 'linear_omega' in k:
            ck.close(got[k], w, f'{who}-{k}', f'{who}: "{k}" is not what its definition gives', wit,
                     rtol=1e-9, scale=np.nanmax(sc, initial=0.))
        else:
            ck.close(got[k], w, f'{who}-{k}', f'{who}: "{k}" is not what its definition gives', wit,
                     rtol=1e-11, scale=np.where(np.isfinite(sc), sc, 0.)[np.isfinite(w)]
                     if np.ndim(w) else sc)
        ck.observe('derived values', int(np.size(w)))


def text_of(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
        fn()
    return buf.getvalue()


def counts(txt):
    return [int(float(x)) for x in re.findall(r'(?m):\s*(\d+)\s*$', txt)]


SAVE = dict(save_dir='fig', extra_specifier_save='', save_formats=['png'],
            sharpness_save_name='sharp', sharpness_subdir='', overview_save_name='over',
            overview_subdir='o')
for it in range(ck.n(60, 900)):
    root = os.path.join(TMP, str(it))
    os.makedirs(root)
    try:
        load, want, style = make_models(rng, root)
        wit = dict(it=it, style=style, load=load)
        names = [f'star{i}' for i in range(len(want))]
        with ck.guard('analyser-raised', 'result files rejected', wit), np.errstate(all='ignore'):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                an = QuadraticAEStationaryAnalyzer(
                    load_information=load, analysis_dict={'show_plots': False},
                    save_information={}, model_names=names)
            got = tables(an)
            ck.case(f'analysis-{style}', (it, len(want)))
            if not ck.expect(len(got) == len(want), 'models', f'{len(got)} models instead of '
                             f'{len(want)}', wit):
                continue
            tot = {}
            for g, d in zip(got, want):
                for k in PATHS:
                    x, y = np.asarray(g[k]), d[k]
                    ck.expect(x.shape == y.shape and np.array_equal(
                        x, y, equal_nan=y.dtype.kind in 'fc'), 'loaded',
                        f'"{k}" is not what the files hold, in the order of the files', wit)
                w = analysed(d)
                compare(g, w, wit, 'analyser')
                # the nonlinear frequencies lock exactly when the azimuthal orders do
                nl = np.asarray(g['nonlinear omegas (c/d)'])
                ck.close(nl[:, 0], nl[:, 1] + nl[:, 2], 'locking', 'nonlinear parent frequency is not '
                         'the sum of the daughter frequencies', wit, rtol=1e-8,
                         scale=np.max(np.abs(nl), initial=0.))
                ck.observe('locked triads', len(nl))
                st, ae, iso = reference(dict(d, **{k: w[k] for k in (
                    'thresh_surf_ppm', 'linear_omega_diff_to_min_omega')}))
                edge = np.abs(np.abs(w['linear_omega_diff_to_min_omega']) - .1) < 1e-12
                if edge.any():
                    continue
                for nm, m in (('stability_mask', st), ('ae_mask', ae), ('isolation_mask', iso),
                              ('validity_mask', ae & iso),
                              ('stability_and_validity_mask', st & ae & iso)):
                    ck.expect(np.array_equal(g[nm], m), f'analyser-{nm}', f'{nm} is not that of the '
                              'triads of the model', wit)
                    tot.setdefault(nm, []).append(int(m.sum()))
            if len(tot.get('ae_mask', [])) == len(want):
                lines = counts(text_of(an.generate_mode_triad_numbers_per_model))
                exp = []
                for i, d in enumerate(want):
                    c = d['checks']
                    exp += [len(c), int(c[:, 3].sum()), int(c[:, 4].sum()), int(c[:, 5].sum()),
                            tot['ae_mask'][i], tot['isolation_mask'][i], tot['stability_mask'][i],
                            tot['validity_mask'][i], tot['stability_and_validity_mask'][i]]
                ck.expect(lines == exp, 'printed-counts', 'printed numbers of triads are not those of '
                          'the models', dict(wit, lines=lines, want=exp))
                ck.observe('printed counts', len(exp))
            if it % 4 == 0:
                txt = text_of(an.generate_counts_q_quality_factor_1_condition)
                qq = both = 0
                for d in want:
                    w = analysed(d)
                    qq += int((w['q'] > w['p_quality_factors']).sum())
                    both += int((w['surf_ratio_daughter_parent_OG_SHAPE'] > 1).all(axis=1).sum())
                m = [int(x) for x in re.findall(r'(?m)^The total number of triads for which .* '
                                                r'models\): (\d+)$', txt)]
                ck.expect(m[:2] == [qq, both] or sorted(m[:2]) == sorted([qq, both]),
                          'printed-q-counts', 'printed numbers of triads per condition',
                          dict(wit, got=m, want=[qq, both]))
                for fn in (an.generate_isolated_triad_mode_properties,
                           an.generate_isolated_triad_stab_val_estimators,
                           an.generate_isolated_triad_observables):
                    if all(x for x in tot.get('stability_and_validity_mask', [0])):
                        ck.expect(len(text_of(fn)) > 0, 'no-text', 'no output', wit)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- plotter: masks per class, folded frequencies, points drawn
def folded(x):
    if not x < 0:
        return x
    a = abs(x)
    if a >= 4 * NYQ:
        return None
    z = int(a // NYQ)
    return a - z * NYQ if z % 2 == 0 else (z + 1) * NYQ - a


FIGS = []
_og_sub = plt.subplots


def spy_subplots(*a, **k):
    out = _og_sub(*a, **k)
    FIGS.append(out)
    return out


for it in range(ck.n(24, 240)):
    root = os.path.join(TMP, f'p{it}')
    os.makedirs(root)
    FIGS.clear()
    plt.subplots = spy_subplots
    try:
        sharp = it % 3 != 0
        over = it % 3 != 1
        load, want, style = make_models(rng, root, wide=rng.choice([0, 2e-4, 1.2e-3]) if over else None)
        wit = dict(it=it, style=style, load=load)
        subs = [('', 'sub', 'a/b')[(it // 2 + k) % 3] for k in range(2)]
        extra = '' if it % 5 < 3 else 'extra'
        save = dict(SAVE, save_base_dir=os.path.join(root, 'figs'), sharpness_subdir=subs[0],
                    overview_subdir=subs[1], extra_specifier_save=extra,
                    save_formats=['png'] if it % 4 else ['png', 'pdf'])
        draw = it < ck.n(24, 120)
        with ck.guard('plotter-raised', 'result files rejected', wit), np.errstate(all='ignore'):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                pl = QuadraticAEPlotter(
                    load_information=load, save_information=save,
                    plotting_dict=dict(plot_overview=over, plot_resonance_sharpness=sharp,
                                       plot_coefficient_profile=False, show_plots=False,
                                       fig_size=(4, 3), fig_dpi=60, axis_label_size=14,
                                       tick_label_size=12))
            got = tables(pl)
            ck.case(f'plotter-{style}', (it, len(want)))
            if not ck.expect(len(got) == len(want), 'plotter-models', 'wrong number of models', wit):
                continue
            pts = {k: [] for k in ('Stab.', 'Stab. + AE', 'Stab. + Val.')}
            unclear = False
            for g, d in zip(got, want):
                w = plotted(d)
                if not over:
                    w = {k: v for k, v in w.items() if 'shift' not in k}
                compare(g, w, wit, 'plotter')
                if sharp:
                    dw, gg = w['linear_omega_diff'], d['driv_damp_rates']
                    ck.close(g['resonance_sharpness_factor'], dw / (gg[:, 1] + gg[:, 2]), 'sharpness',
                             'resonance sharpness', wit, rtol=1e-9)
                if not over:
                    continue
                full = plotted(d)
                fr = d['inert_mode_freqs'] * DAY
                fr = fr + np.column_stack([full['freq_shift_p'], full['freq_shift_d']]) * DAY / 2 / np.pi
                low = fr.min(axis=1)
                x = np.asarray(g['min_inertial_freq_stack'])
                for i, f in enumerate(low):
                    fo = folded(f)
                    a = abs(f) / NYQ
                    if fo is None or abs(a - round(a)) < 1e-9:
                        continue
                    ck.expect(np.all(np.abs(x[i] - fo) <= 1e-9 * (abs(f) + NYQ)), 'folding',
                              'the lowest nonlinear frequency is not folded into the observable range',
                              dict(wit, f=f, got=x[i], want=fo, nyquist=NYQ))
                    ck.observe(f'frequency fold {min(int(a), 4) if f < 0 else "none"}')
                st, ae, iso = reference(dict(d, **{k: full[k] for k in (
                    'thresh_surf_ppm', 'linear_omega_diff_to_min_omega')}))
                nh = d['rad_ord'][:, 1] != d['rad_ord'][:, 2]
                if (np.abs(np.abs(full['linear_omega_diff_to_min_omega']) - .1) < 1e-12).any():
                    unclear = True
                ratio = full['surf_ratio_daughter_parent_OG_SHAPE']
                for nm, m in (('Stab.', st & nh & ~ae), ('Stab. + AE', st & nh & ae & ~iso),
                              ('Stab. + Val.', st & nh & ae & iso)):
                    xx, yy = x[m].ravel(), ratio[m].ravel()
                    pts[nm].append(np.column_stack([xx, yy]))
            if not draw:
                continue
            classes, n_cls = {'Isolated': [], 'Stable': []}, 0
            for d in want:
                full = plotted(d)
                st, ae, iso = reference(dict(d, **{k: full[k] for k in (
                    'thresh_surf_ppm', 'linear_omega_diff_to_min_omega')}))
                f = np.abs(full['linear_omega_diff'] / d['driv_damp_rates'][:, 1:].sum(axis=1))
                classes['Isolated'].append(f[st & ae & iso])
                classes['Stable'].append(f[st & ae & ~iso])
                unclear |= bool((np.abs(np.abs(full['linear_omega_diff_to_min_omega']) - .1)
                                 < 1e-12).any())
            classes = {k: np.concatenate(v) for k, v in classes.items()}
            with contextlib.redirect_stdout(io.StringIO()):
                pl.generate_plots()
            n_saved = sum(len(fs) for _, _, fs in os.walk(save['save_base_dir']))
            ck.expect(n_saved == (over + sharp) * len(save['save_formats']), 'figure-files',
                      f'{n_saved} figures saved', wit)
            for fmt in save['save_formats']:
                for on, sub, nm in ((over, subs[1], 'over'), (sharp, subs[0], 'sharp')):
                    p = os.path.join(save['save_base_dir'], 'fig', sub,
                                     f'{nm}{"_" + extra if extra else ""}.{fmt}')
                    if on:
                        ck.expect(os.path.isfile(p) and os.path.getsize(p) > 100, 'figure-missing',
                                  'figure not saved', dict(wit, path=p))
                        ck.observe('figures saved')
            if sharp and not unclear and len(np.unique(np.concatenate(list(classes.values())))) > 1:
                ax = FIGS[0][1]
                bars = {c.get_label(): c for c in ax.containers}
                for nm, data in classes.items():
                    if not len(data):
                        continue
                    hit = [c for lab, c in bars.items() if str(lab).startswith(nm)]
                    if not ck.expect(len(hit) == 1, 'bars', f'no bars of class "{nm}"',
                                     dict(wit, labels=list(bars), data=data)):
                        continue
                    ck.expect(f'({len(data)} triads)' in hit[0].get_label(), 'bar-label',
                              'number of triads in the legend', dict(wit, label=hit[0].get_label(),
                                                                     want=len(data)))
                    h = np.array([r.get_height() for r in hit[0].patches])
                    lo = np.array([r.get_x() for r in hit[0].patches])
                    hi = lo + np.array([r.get_width() for r in hit[0].patches])
                    tol = 1e-9 * hi
                    inner = np.array([np.sum((data > a + t) & (data < b - t))
                                      for a, b, t in zip(lo, hi, tol)])
                    outer = np.array([np.sum((data >= a - t) & (data <= b + t))
                                      for a, b, t in zip(lo, hi, tol)])
                    cnt = h / 100 * len(data)
                    ck.expect(np.all(cnt >= inner - 1e-6) and np.all(cnt <= outer + 1e-6)
                              and abs(h.sum() - 100) < 1e-6, 'bar-heights', f'bars of "{nm}" are not '
                              'the shares of the triads in the bins',
                              dict(wit, heights=h, low=lo, high=hi, data=data))
                    ck.observe('bars recounted', len(h))
            if over and not unclear:
                ax = FIGS[-1][1]
                drawn = {}
                for c in ax.collections:
                    drawn.setdefault(c.get_label(), []).append(
                        np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan))
                for nm, arrs in pts.items():
                    def fin(z):
                        z = z[np.isfinite(z).all(axis=1)]
                        return z[np.lexsort((z[:, 0].round(9), z[:, 1].round(9)))]
                    w = fin(np.concatenate(arrs))
                    g = fin(np.concatenate(drawn[nm])) if nm in drawn else np.empty((0, 2))
                    ok = g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-9)
                    if not ok and g.shape == w.shape:
                        ok = np.allclose(np.sort(g, 0), np.sort(w, 0), rtol=1e-7, atol=1e-9)
                    ck.expect(ok, 'drawn-points', f'points drawn as "{nm}" are not the triads of that '
                              'class', dict(wit, got=g, want=w))
                    ck.observe('points drawn', len(w))
    finally:
        plt.subplots = _og_sub
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)

shutil.rmtree(TMP, ignore_errors=True)
ck.need('derived values', 5000)
ck.need('locked triads', 500)
ck.need('frequency fold 2', 3)
ck.need('points drawn', 10)
ck.need('bars recounted', 10)
ck.finish()
