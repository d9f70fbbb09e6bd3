"""C32: stability maps and threshold ratio of the figure scripts."""
import contextlib
import importlib.util
import io
import os
import re
import runpy
import shutil
import tempfile
from fractions import Fraction as F

import matplotlib
matplotlib.use('Agg')
import numpy as np  # noqa: E402

from vh import build  # noqa: E402
from vh.amplitude import three, verdict  # noqa: E402
from vh.report import Check  # noqa: E402

ck = Check('C32', 'one case = one point of a stability map, one grid, one figure or one set of ratios; maps are '
                  'judged by eigenvalues and exact arithmetic, regressions by an enumeration of the nearest points')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
import matplotlib.pyplot as plt  # noqa: E402
from aesolver.stability_checker.three_mode import stab_checker_quadratic_three_sum as s3  # noqa: E402

rng = ck.rng()
DIR = os.path.join(build.REPO, 'VB_et_al_2024_additional_plot_compute_scripts')
TMP = tempfile.mkdtemp(prefix='c32_')


def load(name):
    with matplotlib.rc_context():
        spec = importlib.util.spec_from_file_location(name, os.path.join(DIR, name + '.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    return mod


D, T = load('dziembowski_subplot'), load('compute_threshold_theta')


# ---- stability maps
def dziembowski_1982(t2, t3, q):
    """The published criterion (sign of a polynomial in q), in exact arithmetic."""
    t2, t3, q = F(t2), F(t3), F(q)
    r = t2 + t3 - 1
    c = [-r ** 3 - 2 * t2 * t3, -12 * t2 * t3 + r * ((t2 - t3) ** 2 + (t2 + t3) ** 2 + 2),
         3 * (-6 * t2 * t3 + r * ((t2 - t3) ** 2 + 2 * (t2 + t3) ** 2 + 1))]
    v = [c[0], c[1] * q ** 2, c[2] * q ** 4]
    s = sum(v)
    return None if abs(s) < 1e-9 * max(map(abs, v)) else bool(s > 0)


for it in range(ck.n(200, 8000)):
    n = int(rng.integers(3, 9))
    lo = float(10 ** rng.uniform(-2, 1))
    X, Y = np.meshgrid(lo * 10 ** rng.uniform(0, 2.5, n), lo * 10 ** rng.uniform(0, 2.5, n))
    dg = float(rng.choice([.1, 1., 10., 100., 1e3, 1e4, 10 ** rng.uniform(-2, 4)]))
    wit = dict(it=it, dg=dg)
    with ck.guard('map-raised', witness=wit):
        old, new = np.asarray(D.original_dziembowski(X, Y, dg)), np.asarray(D.corrected_dziembowski(X, Y, dg))
        ck.case('map', (it, n))
        ck.expect(old.shape == new.shape == X.shape, 'map-shape', 'a map has another shape than its grid', wit)
        for i in np.ndindex(X.shape):
            a, b = float(X[i]), float(Y[i])
            w = dict(wit, theta2=a, theta3=b)
            s = 1 - a - b
            if abs(s) < 1e-3 * max(a, b, 1):
                continue
            try:
                v = verdict(three(np.array([3., 1.7, 1.3]), np.array([1., -a, -b]), dg, 1.)[0])
            except AssertionError:             # the stationary point is not known well enough
                v = None
            if v is not None:
                ck.expect(bool(new[i]) == v, 'corrected', 'the map of stable points differs from the eigenvalues '
                          'of the amplitude equations', dict(w, got=new[i], want=v))
                ck.observe('stable points' if v else 'unstable points')
            p = dziembowski_1982(a, b, dg / s)
            if p is None:
                continue
            ck.expect(bool(old[i]) == (p and s < 0), 'original', 'the map of the 1982 criterion is not that '
                      'criterion', dict(w, got=old[i], want=p and s < 0))
            g = 10. ** rng.uniform(-7, 2) * np.array([1., -a, -b])
            ck.expect(bool(s3.check_original_dziembowski_conditions(g, dg / s)) == p, 'original-condition',
                      'the 1982 criterion of the solver', w)
            if v is not None and bool(old[i]) != v:
                ck.observe('points where the criteria differ')
            c_old = 3 * (-6 * a * b - s * ((a - b) ** 2 + 2 * (a + b) ** 2 + 1))
            c_new = -18 * a * b - 3 * s * (s * s + 4 * (a + b - a * b))
            big = 18 * a * b + 3 * abs(s) * (1 + 2 * (a + b) ** 2)
            if abs(c_old) > 1e-6 * big:
                ck.close(float(s3.ratio_coefficients_q4_dziembowski(g)), c_new / c_old, 'ratio', 'ratio of the '
                         'coefficients of the two criteria', w, rtol=1e-9, scale=big / abs(c_old))
            # for large detunings the sign of the ratio says whether the criteria agree
            if min(abs(c_old), abs(c_new)) > 1e-3 * big:
                r = float(s3.ratio_coefficients_q4_dziembowski(g))
                both = [bool(f(g, 1e6)) for f in (s3.check_original_dziembowski_conditions,
                                                  s3.check_corrected_dziembowski_conditions)]
                ck.expect((r > 0) == (both[0] == both[1]), 'ratio-sign', 'the ratio contradicts the criteria at '
                          'large detunings', w)

# ---- grids and figures of the script
for it in range(ck.n(20, 200)):
    lo, d = float(10 ** rng.uniform(-2, 0)), float(10 ** rng.uniform(-2, 0))
    hi = lo + d * float(rng.uniform(3, 60))
    X, Y, ext = D.comp_meshgrid(theta_min=lo, theta_max=hi, dtheta=d)
    n = X.shape[0]
    wit = dict(lo=lo, hi=hi, d=d)
    ck.case('grid', (lo, hi))
    ck.close(X, np.tile(lo + d * np.arange(n), (n, 1)), 'grid', 'grid of the first ratio', wit, rtol=1e-10)
    ck.close(Y, np.tile(lo + d * np.arange(n), (n, 1)).T, 'grid', 'grid of the second ratio', wit, rtol=1e-10)
    ck.expect(tuple(ext) == (lo, hi, lo, hi) and abs(X.max() + d - hi) <= d * (1 + 1e-9), 'extent',
              'extent of the grid', wit)
for first in (True, False):
    g = D.get_grid_information(first_row=first)
    k = {len(v) for v in g.values()}
    ck.case('row', first)
    ck.expect(len(k) == 1, 'row', 'as many grids as detunings', g)
    ck.expect(all(a < b and 0 < c < (b - a) for a, b, c in zip(g['theta_min'], g['theta_max'], g['dtheta'])),
              'row-grids', 'grids of the figure are not empty', g)
    exps = [int(round(np.log10(x))) for x in g['domega_gamma1']]
    names = {}
    cwd = os.getcwd()
    os.chdir(TMP)
    try:
        with matplotlib.rc_context({'text.usetex': False}):
            axes, fig = D.get_figure_information(first_row=first)
            data = D.generate_loop_data(grid_info=g, axes_info=axes)
            rows = list(zip(*data.values()))
            ck.expect(len(rows) == len(exps), 'panels', 'one panel per detuning', dict(first=first))
            for j, (dg, lo, hi, d, ax, xl, yl, left, bottom, col) in enumerate(rows):
                ck.expect((dg, lo, hi, d) == tuple(g[q][j] for q in ('domega_gamma1', 'theta_min', 'theta_max',
                          'dtheta')) and ax is fig.axes[j], 'panel', 'a panel has another detuning or grid',
                          dict(first=first, panel=j))
                D.adjust_ticks(ax=ax, xtickbottom=bottom, ytickleft=left)
                D.adjust_labels(plot_xlabel=xl, plot_ylabel=yl, ax=ax)
                ck.expect(('vartheta_2' in ax.get_xlabel()) == bool(xl) and ('vartheta_3' in ax.get_ylabel()) ==
                          bool(yl), 'axis-label', 'labels of the ratios', dict(first=first, panel=j))
                D.add_text_label(my_ax=ax, delta_omega_over_gamma_1=dg, text_color=col)
                m = re.search(r'10\^\{?(-?\d+)', ax.texts[-1].get_text())
                ck.expect(m is not None and int(m.group(1)) == exps[j], 'panel-text', 'the detuning written in the '
                          'panel is not that of the panel', dict(first=first, panel=j))
            meta = D.create_figure_meta_data(grid_data=g)
            plt.close(fig)
            for text in (True, False):
                fig = plt.figure(figsize=(2, 2), dpi=40)
                before = set(os.listdir('.'))
                D.save_figure(add_text=text, meta=meta, first_row=first)
                new = set(os.listdir('.')) - before
                plt.close(fig)
                ck.expect(len(new) == 1 and D.generate_save_name(add_text=text, first_row=first) in new, 'saved',
                          'exactly the named figure is saved', dict(new=sorted(new)))
                for nm in new:
                    got = [int(x) for x in re.findall(r'_e(-?\d+)', nm)]
                    ck.expect(got == exps and ('annotated' in nm) == text, 'figure-name',
                              'the name of the figure is not that of its detunings', dict(name=nm, want=exps))
                    ck.observe('figures saved')
    finally:
        os.chdir(cwd)
        plt.close('all')


# ---- threshold of the ratio
def nearest(x, y, k):
    """Points with the k ratios nearest to one on either side."""
    d = sorted((abs(b - 1), i) for i, b in enumerate(y) if b > 1)[:k]
    e = sorted((abs(b - 1), i) for i, b in enumerate(y) if not b > 1)[:k]
    i = [j for _, j in d + e]
    return [x[j] for j in i], [y[j] for j in i]


def line(x, y):
    """Regression of x on y: slope, intercept and their standard errors."""
    x, y = np.array(x, np.longdouble), np.array(y, np.longdouble)
    n = len(x)
    dy = y - y.mean()
    b = np.sum(dy * (x - x.mean())) / np.sum(dy ** 2)
    a = x.mean() - b * y.mean()
    s = np.sqrt(np.sum((x - a - b * y) ** 2) / (n - 2) / np.sum(dy ** 2))
    return [float(v) for v in (b, a, s, s * np.sqrt(np.mean(y ** 2)))]


def judge(x, y, k, lin, unc, bound, wit):
    b, a, sb, sa = line(*nearest(x, y, k))
    sc = max(abs(a), abs(b), 1e-3 * (sa + sb))
    for nm, got, want in (('slope', lin[0], b), ('intercept', lin[1], a), ('slope-error', lin[2], sb),
                          ('intercept-error', lin[3], sa), ('boundary', bound, a + b),
                          ('uncertainty', unc, float(np.hypot(sa, sb)))):
        ck.close(got, want, nm, f'{nm} of the regression through the points nearest to a ratio of one', wit,
                 rtol=1e-6, scale=max(sc, sa + sb))
    ck.observe('regressions')


for it in range(ck.n(200, 8000)):
    k = int(rng.integers(2, 6))
    n1, n2 = (int(v) for v in rng.integers(k + 1, k + 12, 2))
    y = np.concatenate([1 + 10 ** rng.uniform(-3, .5, n1), 1 - rng.random(n2)])
    x = 2 - y + rng.normal(size=n1 + n2) * 10 ** rng.uniform(-3, 0)
    if rng.random() < .2:
        y[-1] = 1.
    o = rng.permutation(n1 + n2)
    x, y = x[o], y[o]
    wit = dict(k=k, x=x, y=y)
    with ck.guard('threshold-raised', witness=wit):
        df = T.generate_plot_dataframe(theta_2=list(x), ratio_2_1=list(y))
        pos, neg = T.get_difference_arrays(my_df=df)
        pm, nm = T.get_k_smallest_points_masks(k=k, my_pos_diff=pos, my_neg_diff=neg)
        xx, yy = T.get_k_smallest_points(k=k, X=x, Y=y, pos_closest_k=pm, neg_closest_k=nm)
        ck.case('threshold', (it, k))
        wx, wy = nearest(x, y, k)
        ck.expect(sorted(zip(yy, xx)) == sorted(zip(wy, wx)), 'nearest', 'the points are not the nearest to a ratio '
                  'of one on either side', dict(wit, got=sorted(yy), want=sorted(wy)))
        lin, unc, bound = T.perform_linear_regression(xx_k=xx, yy_k=yy)
        judge(x, y, k, (lin.slope, lin.intercept, lin.stderr, lin.intercept_stderr), unc, bound, wit)

# the script itself
x, y = T.get_values_for_interpolation()
ck.case('script', 'compute_threshold_theta')
buf = io.StringIO()
keep = plt.show
plt.show = lambda *a, **k: None
drawn = []
try:
    with ck.guard('script-raised'), contextlib.redirect_stdout(buf):
        runpy.run_path(os.path.join(DIR, 'compute_threshold_theta.py'), run_name='__main__')
        drawn = [np.array(ln.get_xydata()) for ln in plt.gca().lines]
finally:
    plt.show = keep
    plt.close('all')
v = [float(q) for q in re.findall(r'(?<![\w.])[-+]?\d+\.\d+(?:e[-+]?\d+)?', buf.getvalue())]
if ck.expect(len(v) == 6, 'printed', 'the script prints the boundary, the slope and the intercept with their errors',
             dict(text=buf.getvalue()[:500])):
    ks = [k for k in range(2, 7) if np.isclose(v[0], sum(line(*nearest(x, y, k))[:2]), rtol=1e-9)]
    if ck.expect(ks == [3], 'script-points', 'the boundary is not that of the three nearest points on either side',
                 dict(printed=v, fits=ks)):
        judge(x, y, 3, (v[2], v[4], v[3], v[5]), v[1], v[0], dict(script=True))
    for p in drawn:
        ck.close(p[:, 0], v[4] + v[2] * p[:, 1], 'drawn-line', 'the line drawn is not the regression', None, rtol=1e-9)
        ck.observe('lines drawn')

shutil.rmtree(TMP, ignore_errors=True)
ck.need('stable points', 30)
ck.need('unstable points', 30)
ck.need('points where the criteria differ', 3)
ck.need('regressions', 20)
ck.need('figures saved', 4)
ck.finish()
