"""C28: profile runs of the solver (one triad of one star: figures and printed numbers) against the
coupling coefficient of the triad, the validity zones of its stellar model, and the modes."""
import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import h5py  # noqa: E402
import numpy as np  # noqa: E402
from astropy.constants import G as G_  # noqa: E402

from vh import build  # noqa: E402
from vh.report import Check  # noqa: E402

ck = Check('C28', 'one case = one profile run: inlist and generated files in, the curves of the figures and '
           'the printed numbers out, each compared with a recomputation from the generating star')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv',
             'histogram_maker'])
from aerunners import perform_complete_solve_run, solve_quadratic  # noqa: E402
from aesolver import QuadRotAESolver  # noqa: E402
from aesolver.coupling_coefficients import QCCR  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from hough_function import HF  # noqa: E402
from vh import pipeline as pl  # noqa: E402
from vh.amplitude import three, verdict  # noqa: E402
from vh.coupling import Mode  # noqa: E402
from vh.star import Polytrope  # noqa: E402

rng = ck.rng()
G = G_.cgs.value
ROOT = tempfile.mkdtemp(prefix='c28_')
HOME = os.getcwd()
TRIADS = [((2, 2), (1, 1), (1, 1)), ((2, 0), (1, 1), (1, -1)), ((2, 1), (1, 0), (1, 1)), ((1, 1), (2, 2), (1, -1)),
          ((2, -2), (1, -1), (1, -1)), ((3, 1), (2, 2), (1, -1))]
PLACES = ('parent', 'daughter_1', 'daughter_2')
PATTERNS = ('random', 'random', 'random', 'all', 'none', 'core', 'middle', 'ends')


class Figures:
    """What the figures that a run saves contain."""

    def __init__(self):
        self.saved = []

    def __enter__(self):
        self.old = matplotlib.figure.Figure.savefig
        me = self

        def savefig(fig, path, *a, **k):
            axes = []
            for ax in fig.axes:
                lines = [(str(ln.get_label()), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float))
                         for ln in ax.lines]
                shade = [np.array(p.vertices) for c in ax.collections for p in c.get_paths()]
                axes.append((ax.get_title(), lines, shade, len(ax.collections)))
            me.saved.append((str(path), axes))
        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.old
        plt.close('all')


class Scripted:
    """The solver class for scripts (QuadRotAESolver) in the place of the profile solver."""

    def __new__(cls, sys_args, cc_profile_selection_dict, **kw):
        view = {q: kw.pop(q) for q in ('view_kernels', 'view_term_by_term') if q in kw}
        kw.pop('progress_bars', None)
        o = QuadRotAESolver(sys_args, cc_profile_selection_dict, compute_grid=False, compute_profile=True, **kw)
        return type('S', (), {'__call__': lambda _: o.compute_mode_triad_profile(**view), '__getattr__': lambda _, q: getattr(o, q)})()


def solve(T, save, script=False):
    """Figures, printed text, exception of one run."""
    old = sys.argv, getattr(solve_quadratic, 'QuadraticAEProfileSolver', None)
    work = os.path.join(T.root, 'work')
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    sys.argv = T.argv(save, None)
    if script and old[1] is not None:
        solve_quadratic.QuadraticAEProfileSolver = Scripted
    out, err = io.StringIO(), None
    try:
        with Figures() as figs, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            perform_complete_solve_run(logging.getLogger())
    except SystemExit as e:
        err = None if e.code in (None, 0) else e
    except Exception as e:                       # noqa: BLE001
        err = e
    finally:
        sys.argv = old[0]
        if old[1] is not None:
            solve_quadratic.QuadraticAEProfileSolver = old[1]
        os.chdir(HOME)
    return figs.saved, out.getvalue(), err


def lamb(P, l, m, w, rot):
    h = HF(nu=2 * rot / (w * P.w0), l=l, m=m, npts=200, definition='lee_saio_equivalent')
    h()
    return -h._eigenvalue


def draw_triad(slow):
    """Frequencies and rates of a parametric triad whose stationary state is stable."""
    while True:
        w = rng.uniform(.25, .4) * (3 if rng.random() < .4 else 1)
        f = rng.uniform(.42, .58)
        if slow:
            ws = w * np.array([1, f * (1 + rng.normal() * 1e-4), (1 - f) * (1 + rng.normal() * 1e-4)])
            g = np.array([.03, -1, -1]) * 10 ** rng.uniform(-5, -3, 3)
        else:
            ws = w * np.array([1, f * (1 + rng.normal() * .1), (1 - f) * (1 + rng.normal() * .1)])
            g = np.array([.05, -1, -1]) * ws / rng.uniform(12, 40, 3)
            k = int(rng.integers(1, 3))
            g[k] = -ws[k] / rng.uniform(4, 8)
        if slow and np.abs(ws / g).min() < 12:
            continue
        nad = ws * (1 + 1e-6 * rng.normal(size=3))
        if all(verdict(three(v, g, v[0] - v[1] - v[2], 1.)[0]) for v in (ws, nad)):
            return ws, nad, g


def zones(x, t_lo, t_hi):
    """Buoyancy frequency profile with zones; t_lo, t_hi the two criteria in units of N^2."""
    n = int(rng.integers(1, 6))
    cuts = np.sort(rng.uniform(.03, .97, n - 1))
    kind = str(PATTERNS[int(rng.integers(len(PATTERNS)))])
    good = rng.random(n) < .5
    if kind in ('all', 'none'):
        good[:] = kind == 'all'
    elif kind != 'random':
        n = int(rng.integers(3, 7))
        cuts = np.sort(rng.uniform(.05, .95, n - 1))
        good = rng.random(n) < .5
        good[0], good[-1] = {'core': (True, False), 'middle': (False, False), 'ends': (True, True)}[kind]
        if kind == 'middle':
            good[n // 2] = True
    N2 = np.empty_like(x)
    for a, b, ok in zip([-1, *cuts], [*cuts, 2], good):
        if ok:
            v = max(t_lo, t_hi) * rng.choice([1.02, 1.3, 30.]) ** 2
        else:
            c = int(rng.integers(4))
            v = (-abs(t_lo) if c == 0 else min(t_lo, t_hi) * .9 ** 2 if c == 1 else
                 min(t_lo, t_hi) * .2 ** 2 if c == 2 else
                 min(t_lo, t_hi) + (max(t_lo, t_hi) - min(t_lo, t_hi)) * rng.uniform(.1, .9))
        N2[(x > a) & (x <= b)] = v
    return N2, kind


def adjust(y, valid):
    """Profile without what invalid zones add (an interval counts with the validity of its start)."""
    if not valid.any():
        return np.zeros_like(y)
    return np.concatenate([[y[0]], y[0] + np.cumsum(np.diff(y) * valid[:-1])])


def invalid_zones(valid):
    """[(first invalid point, first valid point after it or last point)]."""
    out, k, n = [], 0, len(valid)
    while k < n:
        if valid[k]:
            k += 1
            continue
        e = k
        while e < n and not valid[e]:
            e += 1
        out.append((k, min(e, n - 1)))
        k = e
    return out


NUM = r'[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?)'


def numbers(s):
    return np.array([float(v) for v in re.findall(NUM, s)])


def find(text, pattern):
    m = re.search(pattern, text, re.S)
    return None if m is None else [(numbers(g), 6e-9 if '[' in g and 'e' not in g else 0.) for g in m.groups()]


def same(got, want, scale=None, tol=2e-7, digit=0.):
    got, want = np.ravel(got), np.ravel(want)
    if got.shape != want.shape:
        return False
    s = np.abs(want) if scale is None else scale
    with np.errstate(invalid='ignore'):
        return bool(np.all((got == want) | (np.abs(got - want) <= tol * s + digit) | (np.isnan(got) & np.isnan(want))))


def has_curve(lines, x, y, scale, tol=1e-9):
    return any(len(b) == len(y) and same(a, x, 1., 1e-12) and same(b, y, scale, tol) for _, a, b in lines)


# ---------------------------------------------------------------- kernels
ANG = {r'H_r': 'hr', r'H_\theta': 'ht', r'H_\phi': 'hp', r'm\,H_r': 'mhr', r'\partial\,H_r': 'dr',
       r'\partial\,H_\theta': 'dt', r'\partial\,H_\phi': 'dp', r'H_\phi^\phi': 'pp', r'H_\phi^\theta': 'tp'}
RAD = {r'z_1': 'z1', r'H': 'div', r'\dfrac{\partial(r\,z_1)}{\partial r}': 'd1',
       r'\dfrac{z_2}{c_1\,\bar{\omega}^2}': 'zh',
       r'\dfrac{\partial}{\partial r}\,(r\,\dfrac{z_2}{c_1\,\bar{\omega}^2})': 'd2'}
STAR = [r'\left(\dfrac{\partial \Gamma_1}{\partial \ln \rho}\right)_S', r'(\Gamma_1 - 1)^2', r'(\Gamma_1 - 1)',
        r'\dfrac{\partial^3 \Phi}{\partial r^3}', r'\dfrac{\partial^2 \Phi}{\partial r^2}',
        r'\dfrac{\partial \Phi}{\partial r}', r'\rho', r'r^3', r'r^2', r'r', r'P']


def tokens(s):
    """Names in a label that lists one function per mode."""
    out = []
    for t in s.split(', '):
        m = re.fullmatch(r'(?:\\left)?\(+(.*?)(?:\\right)?\)_\{([ABC])\}', t.strip())
        if m:
            if 'ABC'.index(m[2]) != len(out):
                return None
            t = m[1].replace('{1}', '1')
        out.append(t.strip())
    return out


def angular_label(s):
    """(factor, divided by sin(theta), multiplied by mu, names) of a label."""
    s = s.replace('[', '').replace(']', '').replace('$', '').replace("'", '').strip()
    m = re.fullmatch(r'\\dfrac\{(.*)\}\{\\sqrt\{1 - \\mu\^2\}\}', s)
    div = m is not None
    s = m[1] if div else s
    fac, mu = 1., False
    m = re.match(r'(-?\d+(?:\.\d*)?|-)\\,', s)
    if m:
        fac, s = (-1. if m[1] == '-' else float(m[1])), s[m.end():]
    if s.startswith(r'\mu\,'):
        mu, s = True, s[4:].lstrip()
    t = tokens(s)
    if t is None or len(t) != 3 or any(q not in ANG for q in t):
        return None
    return fac, div, mu, tuple(ANG[q] for q in t)


class Angular:
    """Functions of the polar angle of one mode."""

    def __init__(self, md, nu, lam):
        h = HF(nu=nu, l=md.l, m=md.m, npts=200, lmbd=lam, lmbd_adjust=True, definition='lee_saio_equivalent')
        h()
        k = md.hr @ h.hr_range / (h.hr_range @ h.hr_range)
        self.mu = md.mu
        for q in ('hr', 'ht', 'hp', 'dr', 'dt', 'dp'):
            setattr(self, q, getattr(md, q))
        self.mhr = k * h.hr_range_m
        self.pp, self.tp = k * h.phi_phi_hough_tilde, k * h.theta_phi_hough_tilde


def check_angular(figs, A, wit):
    seen = {}
    mu = A[0].mu
    sin = np.sqrt(1 - mu ** 2)
    for path, axes in figs:
        nr = re.search(r'contribution_(\d)', os.path.basename(path))
        for _, lines, _, _ in axes:
            panel = []
            for label, x, y in lines:
                p = angular_label(label)
                if p is None:
                    ck.violate('kernel-label', f'label of an angular kernel names no product: {label}', wit)
                    continue
                fac, div, with_mu, names = p
                v = fac * np.prod([getattr(a, q) for a, q in zip(A, names)], axis=0)
                v = v * mu if with_mu else v
                v = v / sin if div else v
                ck.expect(same(x, mu, 1., 1e-12) and same(y, v, np.abs(v).max(), 1e-6), 'angular-kernel',
                          f'curve of angular kernel {label} is another function', wit)
                ck.expect(div == bool({'mhr', 'tp'} & set(names)) or with_mu, 'kernel-division',
                          f'division of angular kernel {label}', wit)
                panel.append(names)
                ck.observe('angular kernel')
            if panel and not re.search(r'\{A\}', lines[0][0]):
                ck.expect(sorted(panel) == sorted(set(itertools.permutations(panel[0]))), 'kernel-permutations',
                          f'angular kernels of a term are not its permutations: {panel}', wit)
            seen.setdefault(nr[1] if nr else '?', []).extend(panel)
    ck.expect(sorted(seen) == ['1', '2', '3', '4'], 'kernel-figures', f'angular kernels of terms {sorted(seen)}', wit)
    for q, v in seen.items():
        small = ('hr', 'hr', 'hr')
        ck.expect(small in v, 'kernel-figures', f'angular kernels of term {q} lack the product of H_r', wit)


def star_terms(title):
    s, out = title.replace('$', '').replace(r'\left(\dfrac{{r^3}}{{\epsilon}}\right)', '@'), []
    if '@' not in s:
        return None
    s = s.replace('@', '')
    while s:
        for t in (*STAR, r'\,'):
            if s.startswith(t):
                if t != r'\,':
                    out.append(t)
                s = s[len(t):]
                break
        else:
            return None
    return out


def check_radial(figs, modes, prof, scale, opts, wit):
    x = modes[0].x
    seen = {}
    for path, axes in figs:
        nr = re.search(r'contribution_(\d)', os.path.basename(path))
        for title, lines, _, _ in axes:
            fits, panel = [], []
            for label, xx, y in lines:
                head, _, body = label.partition('[') if not title else (title, '', label.strip('[]'))
                if not title:
                    body, _, tail = body.partition(']')
                    head = head + tail
                names = tokens(body.replace('$', ''))
                mult = star_terms(head)
                if names is None or mult is None or len(names) != 3 or any(q not in RAD for q in names):
                    ck.violate('kernel-label', f'label of a radial kernel names no product: {title} {label}', wit)
                    continue
                names = tuple(RAD[q] for q in names)
                panel.append(names)
                if STAR[3] in mult and not opts['coupling_coefficient.brunt_def_profiles']:
                    continue
                v = np.prod([getattr(a, q) for a, q in zip(modes, names)], axis=0) * x ** 3
                for t in mult:
                    v = v * prof[t]
                big = np.abs(v).max()
                if big == 0:
                    ck.expect(not y.any(), 'radial-kernel', f'curve of radial kernel {title} {label} is not zero', wit)
                    continue
                k = (y / big) @ (v / big) / ((v / big) @ (v / big))
                fits.append(k)
                u = 2 * k * scale
                ck.expect(round(u) != 0 and abs(u - round(u)) < 1e-5 * abs(u), 'radial-factor',
                          f'radial kernel {title} {label} is {u / 2} times what the label says', wit)
                ck.expect(same(xx, x, 1., 1e-12) and k != 0 and same(y, k * v, abs(k) * big, 1e-6), 'radial-kernel',
                          f'curve of radial kernel {title} {label} is another function', wit)
                ck.observe('radial kernel')
            if fits:
                ck.expect(same(fits, [fits[0]] * len(fits), abs(fits[0]), 1e-6) or not title, 'radial-factor',
                          f'kernels of one term have different factors {fits}', wit)
            if panel and title and not re.search(r'\{A\}', lines[0][0]):
                ck.expect(sorted(panel) == sorted(set(itertools.permutations(panel[0]))), 'kernel-permutations',
                          f'radial kernels of a term are not its permutations: {panel}', wit)
            seen.setdefault(nr[1] if nr else '?', []).extend(panel)
    ck.expect(sorted(seen) == ['1', '2', '3', '4'], 'kernel-figures', f'radial kernels of terms {sorted(seen)}', wit)


# ---------------------------------------------------------------- printed numbers
def check_text(text, y, adj, parts, padj, valid, row, wit):
    X, Y = y[-1], adj[-1]
    zs = invalid_zones(valid)
    any_valid = bool(valid.any())
    if not any_valid:
        Y = y[0]

    def two(key, pattern, want, scale=None, tol=2e-7):
        got = find(text, pattern)
        if got is None:
            ck.violate('text-' + key, f'the run does not print the {key}', wit)
            return
        ck.observe('printed number')
        s = scale or [None] * len(got)
        for (g, digit), w, c, what in zip(got, want, s, ('value', 'adjusted value')):
            ck.expect(same(g, w, c, tol, digit), 'text-' + key, f'{key}: {what} {g} instead of {w}', wit)

    def listed(q):
        """What the invalid zones add; a valid core counts as a zone without width."""
        return np.array([0.] * bool(valid[0]) + [q[e] - q[s] for s, e in zs])

    big = np.abs(y).max()
    two('coupling coefficient', rf'Normed coupling coefficient eta: ({NUM}), after adjustment for TAR validity: ({NUM})',
        (X, Y), (big, big), 1e-9)
    two('zones', r'Contributions to the normed coupling coefficient due to TAR non-validity zones: \[(.*?)\]',
        (listed(y),), (big,), 1e-9)
    for i, name in enumerate(('First', 'Second', 'Third', 'Fourth')):
        if parts is None:
            break
        b = np.abs(parts[i]).max()
        two(f'{name} contribution', rf'{name} normed coupling coefficient \(eta\) contribution: ({NUM}), after '
            rf'adjustment for TAR validity: ({NUM})', (parts[i][-1], padj[i][-1] if any_valid else parts[i][0]), (b, b), 1e-9)
        two(f'{name} zones', rf'{name.lower()} normed coupling coefficient \(eta\) contribution due to TAR non-'
            r'validity zones: \[(.*?)\]', (listed(parts[i]),), (b,), 1e-9)
    if row is None or X == 0:
        return
    with np.errstate(all='ignore'):
        r = abs(Y / X)
        tol = 3e-7 if r == 0 or not np.isfinite(r) else 3e-7 + 1e-9 * big / abs(Y) + 1e-9 * big / abs(X)
        amps, flux, ac = row['amps'] * 1e6, row['flux'] * 1e6, row['threshold'] * 1e6
        for key, pat, v in (
                ('stationary amplitudes', r'Stationary amplitudes \(ppm\): (\[.*?\]), after adjustment for TAR validity '
                 r'\(ppm\): (\[.*?\])', amps),
                ('threshold', rf'Parent threshold amplitude for parametric resonance \(ppm\): \[?({NUM})\]?, after '
                 rf'adjustment for TAR validity \(ppm\): \[?({NUM})', ac),
                ('fluxes', r'Surface luminosity fluctuations \(ppm\): (\[.*?\]), after adjustment for TAR validity '
                 r'\(ppm\): (\[.*?\])', flux),
                ('threshold flux', rf'Parent threshold luminosity fluctuation for parametric resonance \(ppm\): \[?({NUM})\]?,'
                 rf' after adjustment for TAR validity \(ppm\): \[?({NUM})', ac * flux[0] / amps[0])):
            two(key, pat, (v, np.asarray(v) / r), None, tol)
    if any_valid and Y != 0:
        m = re.search(r'Hyperbolicity check: (\w+), after adjustment for TAR validity: (\w+)', text)
        ck.expect(m is not None and m.groups() == ('True', 'True'), 'text-hyperbolic',
                  f'hyperbolicity of a stable triad: {m and m.groups()}', wit)


def stored(T):
    """The row of a grid run with this triad only."""
    path = T.files()[0]
    with h5py.File(path, 'r') as f:
        g = f['coupling/stationary_three_mode']
        r = {'amps': g['equilibrium_theoretical_amplitudes'][0].astype(float),
             'flux': g['surface_flux_variations'][0].astype(float),
             'threshold': float(np.ravel(g['critical_parent_amplitudes'][0])[0]),
             'eta': float(np.ravel(f['coupling/generic/|kappa_norm|'][0])[0]),
             'stable': bool(np.ravel(f['checks/pre_checks'][0])[4])}
    return r


def run(k, kernels):
    P = Polytrope(n=float(rng.uniform(1.5, 3.5)), gamma=float(rng.choice([5 / 3, 1.6, 1.75])),
                  cut=float(rng.uniform(.9, .98)), npts=int(rng.integers(60, 140)), G=G,
                  M=float(rng.uniform(4e33, 2e34)), R=float(rng.uniform(1e11, 5e11)))
    rot = float(rng.uniform(.02, .08) if rng.random() < .5 else rng.uniform(.15, .25)) * P.w0
    lms = TRIADS[int(rng.integers(len(TRIADS)))]
    ns = [int(v) for v in rng.choice(np.arange(8, 40), 3, replace=False)]
    slow = k % 6 != 5
    ws, wn, gs = draw_triad(slow)
    x = P.x
    t_rot, t_w = (20 * rot) ** 2, (10 * np.abs(ws).max() * P.w0) ** 2
    N2, kind = zones(x, t_rot, t_w)
    adiabatic = bool(rng.random() < .7)
    opts = {'coupling_coefficient.adiabatic': adiabatic,
            'computation.display_progress': bool(rng.random() < .4),
            'coupling_coefficient.terms_cc_conj': [True, False, False],
            'computation.compute_grid_models': False, 'computation.compute_coefficient_profile': True,
            'computation.integration_method': str(rng.choice(['trapz', 'simpson'])),
            'computation.angular.cheby_mul': 1, 'plotting.profile.show_kernels': kernels,
            'plotting.profile.show_term_by_term': bool(kernels or rng.random() < .6),
            'coupling_coefficient.symbolic_profiles': bool(kernels or rng.random() < .7),
            'coupling_coefficient.brunt_def_profiles': bool(rng.random() < .6)}
    wit = dict(run=k, lms=lms, ns=ns, rot=rot / P.w0, w=[float(v) for v in ws], zones=kind, slow=slow, **opts)
    prof = P.profile(add=rng.uniform(-.1, .1, len(x)) if rng.random() < .5 else None)
    prof['brunt_N2'] = N2[::-1].copy()
    T = pl.Tree(os.path.join(ROOT, f'run{k}'))
    try:
        for p, (l, m), n in zip(PLACES, lms, ns):
            for a, v in (('l', l), ('m', m), ('n.low', n), ('n.high', n)):
                T.set(f'mode_info.{p}.{a}', v)
            T.set(f'mode_info.coupling.{p}.n', n)
        for q, v in opts.items():
            T.set(q, v)
        ads, nads = [], []
        imag = 0. if kernels else .1
        for (l, m), n, w, wd, g in zip(lms, ns, ws, wn, gs):
            lam = lamb(P, l, m, w, rot)
            y = P.eigen(l, lam, w) * float(rng.uniform(.3, 3))
            frame = (b'INERTIAL', b'COROT_I')[int(rng.integers(2))]
            ad = P.mode_dict(l, m, lam, w, y, rot, n_pg=-n, frame=frame, imag=imag)
            nad = P.mode_dict(l, m, lam, wd, y, rot, n_pg=-n, nad=g * P.w0, frame=frame, imag=imag)
            ads.append(ad), nads.append(nad)
            for o, d in (('ad', ad), ('nad', nad)):
                pl.write_gyre(T.dirs[o] + 'M8_' + pl.mode_name(d, n), d)
                other = dict(d, n_pg=-n - 50, freq=d['freq'] * 1.1)     # other modes of the star
                pl.write_gyre(T.dirs[o] + 'M8_' + pl.mode_name(other, n + 50), other)
        pl.write_mesa(T.dirs['mesa'] + 'M8_prof.dat', prof)
        T.write_inlist('inlist', rng)
        script = rng.random() < .25
        figs, text, err = solve(T, 'sv', script)
        ck.case(f'{"script " if script else ""}profile run, zones: {kind}' if slow else 'fast modes', wit)
        if not slow:
            ck.expect(err is not None and type(err).__name__ == 'PhysicsError' and not figs, 'slow-manifold',
                      f'modes off the slow manifold: {err!r}, {len(figs)} figures', wit)
            return
        if err is not None:
            ck.violate('run-raised', f'profile run ended with {err!r}', wit)
            return
        judge(T, P, rot, lms, ns, ws, N2, ads if adiabatic else nads, nads, prof, opts, figs, text, wit)
    finally:
        shutil.rmtree(T.root, ignore_errors=True)


def judge(T, P, rot, lms, ns, ws, N2, ds, nads, prof, opts, figs, text, wit):
    ell, m = [q for q, _ in lms], [q for _, q in lms]
    fh = FH(*ds)
    fh.set_mode_nonadiabatic_info(*nads)
    c = QCCR(*ds, prof, fh, ell, m, use_complex=False, use_parallel=False, conj_cc=(True, False, False),
             use_brunt_def=opts['coupling_coefficient.brunt_def_profiles'],
             use_symbolic_derivatives=opts['coupling_coefficient.symbolic_profiles'],
             numerical_integration_method=opts['computation.integration_method'], use_cheby_integration=False,
             cheby_order_multiplier=1, cheby_blow_up_factor=1e5, cheby_blow_up_protection=False)
    c.adiabatic_coupling_rot_profile()
    y = np.array(c.normed_coupling_coefficient_profile, float)
    parts = [np.array(v, float) for v in c.normed_contributions_coupling_coefficient_profile]
    x = P.x[1:-1]
    w = np.array([d['freq'].ravel()[0].real - (d['m'] * rot if d['freq_frame'] == b'INERTIAL' else 0) for d in ds])
    with np.errstate(invalid='ignore'):
        N = np.sqrt(N2[1:-1])
        valid = (N > 20 * rot) & (N > 10 * np.abs(w).max())
    adj, padj = adjust(y, valid), [adjust(q, valid) for q in parts]
    ck.observe('invalid zones', len(invalid_zones(valid)))
    ck.observe('core valid' if valid[0] else 'core invalid')
    ck.observe('surface valid' if valid[-1] else 'surface invalid')
    big = np.abs(y).max()
    # the figures
    names = [p for p, _ in figs]
    ck.expect(len(names) == len(set(names)), 'figure-names', 'two figures were saved under one name', wit)
    for p in names:
        b = os.path.basename(p)
        want = 'n' + '_'.join(map(str, ns)), 'l' + '_'.join(map(str, ell)), 'm' + '_'.join(map(str, m))
        ck.expect(all(f'_{q}_' in b.replace('.', '_') for q in want), 'figure-names', f'{b} does not name the triad', wit)
    got = {q: [a for p, a in figs if os.path.basename(p).startswith(q)] for q in
           ('cc_profile_single', 'cc_profile', 'cc_contributions_profile')}
    got['cc_profile'] = [a for a in got['cc_profile'] if a not in got['cc_profile_single']]
    ck.expect([len(v) for v in got.values()] == [1, 1, int(opts['plotting.profile.show_term_by_term'])], 'figures',
              f'figures {names}', wit)
    for q, axes in ((q, a) for q, v in got.items() for a in v):
        lines = [ln for _, ls, _, _ in axes for ln in ls]
        curves = parts if 'contrib' in q else [y]
        adjusted = [] if 'single' in q else padj if 'contrib' in q else [adj]
        for v in curves:
            ck.expect(has_curve(lines, x, v, np.abs(v).max()), 'curve', f'{q} lacks the integrated profile', wit)
        for v, u in zip(adjusted, curves):
            ck.expect(has_curve(lines, x, v, np.abs(u).max()), 'adjusted-curve', f'{q} lacks the profile adjusted for '
                      'validity', wit)
        if 'contrib' not in q:
            n_brunt = sum(len(b) == len(x) and same(b, N2[1:-1], np.abs(N2[1:-1]), 1e-9) for _, _, b in lines)
            ck.expect(n_brunt == 1 + ('single' not in q), 'brunt-curve', f'{q} shows the buoyancy frequency '
                      f'{n_brunt} times', wit)
        ck.observe('curve', len(curves) + len(adjusted))
    shaded = [(p, a) for p, axes in figs for a in axes if a[3] and 'angular' not in os.path.dirname(p)]
    for p, (_, _, shade, _) in shaded:
        want = sorted((x[a], x[b]) for a, b in valid_runs(valid) if b > a)
        have = sorted((v[:, 0].min(), v[:, 0].max()) for v in shade if np.ptp(v[:, 0]) > 0)
        ck.expect(same(have, want, 1., 1e-12), 'shading', f'{os.path.basename(p)} shades {have} instead of {want}', wit)
        ck.observe('shaded axes')
    # the numbers of a grid run of the same triad
    T.set('computation.compute_grid_models', True)
    T.set('computation.compute_coefficient_profile', False)
    T.write_inlist('inlist', rng)
    _, _, err = solve(T, 'grid')
    row = None
    if err is None and T.files():
        row = stored(T)
        ck.expect(row['stable'], 'grid', 'the triad is not reported stable', wit)
        ck.expect(same(abs(row['eta']), abs(y[-1]), big, 1e-6), 'grid', f'eta {row["eta"]} of the grid run, '
                  f'{y[-1]} of the profile', wit)
    else:
        ck.violate('grid', f'grid run of the triad ended with {err!r}', wit)
    check_text(text, y, adj, parts if opts['plotting.profile.show_term_by_term'] else None, padj, valid, row, wit)
    # the kernels
    if not opts['plotting.profile.show_kernels']:
        ck.expect(not any('kernel' in q for q in names), 'figures', 'kernels were drawn without being asked for', wit)
        return
    md = [Mode(d | {'freq_units': b'RAD_PER_SEC'}) for d in ds]
    A = [Angular(q, 2 * rot / q.w, np.ravel(d['lambda']).real[0]) for q, d in zip(md, ds)]
    check_angular([f for f in figs if 'angular_kernels' in os.path.dirname(f[0])], A, wit)
    s = np.s_[1:-1]
    r, g, rho, pr, g1 = x * P.R, P.g[s], P.rho[s], P.P[s], P.gamma
    add = prof['gamma_1_adDer'][::-1][s]
    g2 = 4 * np.pi * G * rho - 2 * g / r
    drho = rho * (-rho * g / (pr * g1) - N2[s] / g)
    g3 = 4 * np.pi * G * drho + 2 / r * (g / r - g2)
    check_radial([f for f in figs if 'radial_kernels' in os.path.dirname(f[0])], md,
                 dict(zip(STAR, (rho * add, (g1 - 1) ** 2, g1 - 1, g3, g2, g, rho, r ** 3, r ** 2, r, pr))), G * P.M ** 2 / P.R ** 4,
                 opts, wit)


def valid_runs(valid):
    out, k, n = [], 0, len(valid)
    while k < n:
        e = k
        while e < n and valid[e]:
            e += 1
        if e > k:
            out.append((k, e - 1))
        k = max(e, k + 1)
    return out


for k in range(ck.n(14, 120)):
    with ck.guard('check-raised', witness=dict(run=k)):
        run(k, k % 5 == 0)
shutil.rmtree(ROOT, ignore_errors=True)
ck.need('curve', 10)
ck.finish()
