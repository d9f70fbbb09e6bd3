"""C33: repeated computations, reads and runs release what they acquire, and leave the process as it was."""
import contextlib
import ctypes
import gc
import io
import logging
import os
import random
import runpy
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time
import warnings

ROOT = tempfile.mkdtemp(prefix='c33_')
os.environ['TMPDIR'] = os.path.join(ROOT, 'tmp')
os.makedirs(os.environ['TMPDIR'])
tempfile.tempdir = None

import matplotlib  # noqa: E402
matplotlib.use('Agg')
import h5py  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from astropy.constants import M_sun, R_sun  # noqa: E402

from vh import build  # noqa: E402
from vh import pipeline as pl  # noqa: E402
from vh.report import Check  # noqa: E402

ck = Check('C33', 'one case = one operation repeated in the same process (warm-up, then three windows of repetitions), '
                  'with the native heap, the Python heap, live objects, files, HDF5 objects, threads and settings '
                  'of the process compared between the windows')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv', 'histogram_maker'])
import hogg_jacky as hj  # noqa: E402
from aesolver.coupling_coefficients import QCCR  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from cheby_transform import ChebyTransform  # noqa: E402
from hough_function import HF  # noqa: E402
from inlist_handler import InlistHandler, TomlInlistHandler  # noqa: E402
from vh import native  # noqa: E402
from vh.results import PATHS, make_models  # noqa: E402
from vh.runs import TRIADS, draw_modes, make_star, setup  # noqa: E402

rng = ck.rng()
BLACK = io.StringIO()
LIBC = ctypes.CDLL(None)
PACKAGES = ('aesolver', 'aerunners', 'ae_analyzer', 'aeplotter', 'hough_function', 'cheby_transform', 'hogg_jacky',
            'inlist_handler', 'num_deriv', 'num_integrator', 'disc_integrator', 'ld_funcs', 'myfnd',
            'path_resolver', 'py_combinations', 'multi_log_plotter')


class Mall(ctypes.Structure):
    _fields_ = [(q, ctypes.c_size_t) for q in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                               'uordblks', 'fordblks', 'keepcost')]


LIBC.mallinfo2.restype = Mall


def native_bytes():
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd


def live():
    """Live instances of the classes of the repository, by class."""
    out = {}
    for o in gc.get_objects():
        t = type(o)
        mod = t.__module__
        if isinstance(mod, str) and mod.split('.')[0] in PACKAGES:
            out[f'{mod}.{t.__name__}'] = out.get(f'{mod}.{t.__name__}', 0) + 1
    return out


def handlers():
    n = len(logging.getLogger().handlers)
    for lg in list(logging.Logger.manager.loggerDict.values()):
        n += len(getattr(lg, 'handlers', ()))
    return n


def files():
    out = []
    for f in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out.append(os.readlink(f'/proc/self/fd/{f}'))
    return [f for f in out if '/proc/' not in f]


def children():
    out = []
    for t in os.listdir('/proc/self/task'):
        with contextlib.suppress(OSError):
            out += open(f'/proc/self/task/{t}/children').read().split()
    return out


def rest():
    """Counts that must not grow; the heaps are read last, when nothing of this is alive."""
    gc.collect()
    fs = files()
    c = {'open files': len(fs), 'HDF5 objects': h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL),
         'log handlers': handlers(), 'warning filters': len(warnings.filters), 'threads': len(os.listdir('/proc/self/task')),
         'Python threads': threading.active_count(), 'child processes': len(children()),
         'temporary files': len(os.listdir(os.environ['TMPDIR'])), 'entries of sys.path': len(sys.path),
         'descendants of loggers': len(logging.Logger.manager.loggerDict)}
    for k, v in live().items():
        c['live ' + k] = v
    return c


def settings():
    return {'floating-point error handling': dict(np.geterr()), 'floating-point error callback': np.geterrcall(),
            'warning filters': list(warnings.filters), 'working directory': os.getcwd(),
            'environment': dict(os.environ), 'module search path': list(sys.path),
            'numpy generator': np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 251]),
            'generator of random': random.getstate(), 'print options': np.get_printoptions(),
            'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)],
            'level of the root logger': logging.getLogger().level, 'disabled logging': logging.root.manager.disable,
            'recursion limit': sys.getrecursionlimit(), 'arguments': list(sys.argv),
            'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            'file mode mask': mask(), 'collector': gc.isenabled()}


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def counter():
    """Makes numpy count the arrays that own data, and returns the function that reads the count."""
    out = os.path.join(ROOT, 'arrcount.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-I' + np.get_include(), '-I' + sysconfig.get_paths()['include'],
                    os.path.join(os.path.dirname(native.__file__), 'arrcount.c'), '-o', out], check=True)
    sys.path.insert(0, ROOT)
    import arrcount
    sys.path.remove(ROOT)
    arrcount.install()
    return arrcount.counts


COUNTS = counter()
np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')     # the imports set others


def repeat(name, call, reps, warm=3, windows=3, wit=None, keep=(), native_limit=16, python_limit=1):
    """Runs the call warm + windows * reps times; every window must leave as much behind as none."""
    wit = dict(wit or {}, operation=name)
    outcome = {}

    def once():
        try:
            call()
            outcome['returned'] = outcome.get('returned', 0) + 1
        except (Exception, SystemExit) as e:
            outcome['raised'] = outcome.get('raised', 0) + 1
            outcome['last'] = f'{type(e).__name__}: {e}'[:200]
    for _ in range(warm):
        once()
    before = settings()
    counts, grow = [rest()], ([], [], [])
    for _ in range(windows):
        gc.collect()
        (a2, made), a0, a1 = COUNTS(), native_bytes(), sys.getallocatedblocks()
        for _ in range(reps):
            once()
        gc.collect()
        (b2, more), b0, b1 = COUNTS(), native_bytes(), sys.getallocatedblocks()
        ck.observe('arrays made', more - made)
        grow[0].append(b0 - a0)
        grow[1].append(b1 - a1)
        grow[2].append(b2 - a2)
        counts.append(rest())
    after = settings()
    ck.case(name.split(':')[0], (name, reps, outcome.get('raised', 0) > 0))
    ck.observe('repetitions', reps * windows + warm)
    ck.observe('operations that end in an error' if outcome.get('raised') else 'operations that return')
    for k in before:
        if k not in keep:
            ck.expect(before[k] == after[k], 'setting', f'{name}: the {k} of the process changed',
                      dict(wit, setting=k, before=str(before[k])[:300], after=str(after[k])[:300]))
    for k in sorted(set().union(*counts)):
        v = [c.get(k, 0) for c in counts]
        ck.expect(not all(b > a for a, b in zip(v, v[1:])), 'count',
                  f'{name}: the number of {k} grows with the repetitions: {v}',
                  dict(wit, outcome=outcome, files=[f for f in files() if ROOT in f][:5]))
    for v, what, per in zip(grow, ('bytes of the native heap', 'blocks of the Python heap', 'live arrays'),
                            (native_limit, python_limit, 1)):
        ck.expect(min(v) < per * reps, 'heap', f'{name}: the {what} grow with the repetitions: {v} '
                  f'in {windows} times {reps} repetitions', dict(wit, outcome=outcome))
    return outcome


def silent(f):
    def g():
        with contextlib.redirect_stdout(BLACK), contextlib.redirect_stderr(BLACK):
            try:
                f()
            finally:
                BLACK.seek(0)
                BLACK.truncate()
    return g


# ---------------------------------------------------------------- native kernels
MODS = native.load('plain')
gc.collect()
gc.freeze()
done, tries = {}, 0
while tries < ck.n(110, 700):
    tries += 1
    case, desc = native.make(rng, MODS)
    if case.name == 'api.spec' and not 1e-3 < desc['bw'] < 10:
        continue
    t0 = time.monotonic()
    with contextlib.suppress(Exception):
        case.call()
    cost = time.monotonic() - t0
    if cost > .05:
        ck.observe('native calls left out because they take long')
        continue
    refs = [sys.getrefcount(a.arr) for a in case.inputs + case.outputs]
    reps = int(np.clip(.15 / max(cost, 1e-6), 20, 300))
    repeat(f'native:{case.name}', case.call, reps, warm=12, wit=desc)
    done[case.name] = done.get(case.name, 0) + 1
    now = [sys.getrefcount(a.arr) for a in case.inputs + case.outputs]
    ck.expect(now == refs, 'references', f'{case.name} keeps references to its arguments', dict(desc, before=refs, after=now))
for k, v in done.items():
    ck.observe(f'kernel {k}', v)


# ---------------------------------------------------------------- computations
def oscillation(P, lms, rot, npts=200):
    out = []
    for (l, m), w in zip(lms, rng.uniform(1.5, 4, 3)):
        h = HF(nu=2 * rot / (w * P.w0), l=l, m=m, npts=npts, definition='lee_saio_equivalent')
        h()
        lam = -h._eigenvalue
        out.append(P.mode_dict(l, m, lam, float(w), P.eigen(l, lam, float(w)), rot))
    return out


LOOSE = dict(native_limit=60000, python_limit=3000)     # of libraries; arrays are counted instead


def tweak():
    """A factor near one, another one in every call: what is kept per value grows."""
    return 1 + 1e-9 * rng.standard_normal()


def retouch(T, where):
    """Slightly changes a number in each intact mode or result file of the tree."""
    for q in where:
        d = os.path.join(T.root, 'out', 'sub') if q == 'out' else T.dirs[q]
        for n in sorted(os.listdir(d)):
            with contextlib.suppress(OSError, KeyError), h5py.File(os.path.join(d, n), 'r+') as f:
                if q == 'out':
                    f[PATHS['driv_damp_rates']][...] = f[PATHS['driv_damp_rates']][()] * tweak()
                else:
                    v = f.attrs['freq']
                    f.attrs['freq'] = pl.void((v['re'] + 1j * v['im']) * tweak())[()]


def computations():
    for _ in range(ck.n(3, 12)):
        kw = dict(nu=float(rng.uniform(.05, 3)), l=int(rng.integers(1, 4)), m=0, npts=int(rng.choice([50, 200])),
                  use_complex=bool(rng.integers(2)))
        kw['m'] = int(rng.integers(-kw['l'], kw['l'] + 1))

        def hough(kw=kw):
            h = HF(**dict(kw, nu=kw['nu'] * tweak()))
            h()
        yield 'Hough function', hough, 8, kw
    for mu in ChebyTransform(npts=40).mu:            # a node exactly at the critical colatitude
        if 1.0 - ((1 / mu) ** 2.0 * mu ** 2.0) == 0:
            yield 'Hough function: critical', lambda mu=mu: HF(nu=1 / mu, l=2, m=1, npts=40)(), 4, dict(nu=1 / mu)
            break
    yield 'Hough function: undefined', lambda: HF(nu=np.nan, l=2, m=1, npts=40)(), 4, {}
    yield 'Hough function: bad', lambda: HF(nu=.3, l=1, m=4, npts=50)(), 8, {}
    for it in range(ck.n(2, 8)):
        P = make_star(rng, npts=int(rng.integers(40, 70)))
        rot = .1 * P.w0
        lms = TRIADS[int(rng.integers(len(TRIADS)))]
        ds = oscillation(P, lms, rot)
        kw = dict(conj_cc=(True, False, False), use_symbolic_derivatives=bool(rng.integers(2)),
                  numerical_integration_method=str(rng.choice(['trapz', 'simpson'])))
        prof = P.profile()

        def coefficient(ds=ds, prof=prof, kw=kw, profile=False):
            ds = [dict(d, freq=d['freq'] * tweak()) for d in ds]
            fh = FH(*ds)
            fh.set_mode_nonadiabatic_info(*ds)
            c = QCCR(*ds, prof, fh, [d['l'] for d in ds], [d['m'] for d in ds], **kw)
            if profile:
                c.adiabatic_coupling_rot_profile(progress_bar=False)
            else:
                c.adiabatic_coupling_rot()
        wit = dict(lms=lms, **kw)
        yield 'coupling coefficient', coefficient, 4, wit
        yield 'coupling profile', lambda f=coefficient: f(profile=True), 1, wit
        yield 'coupling coefficient: bad', lambda ds=ds: coefficient([dict(ds[0], xi_r=ds[0]['xi_r'][:5]), *ds[1:]]), 4, wit
    for it in range(ck.n(2, 10)):
        x = np.abs(rng.normal(size=int(rng.choice([20, 60, 200])))) + .1
        nb, bw = 6, float(np.ptp(x)) / 6
        for q, f in (('numpy', lambda y: hj.histogram_spec_width(y, nb, True, False)),
                     ('blas', lambda y: hj.histogram_blas_spec_width(y, bw, nb, 0.0, True, False, min_nr_bins=nb)),
                     ('numexpr', lambda y: hj.histogram_numexpr_spec_width(y, bw, 0.0, True, False, nr_bins=nb)),
                     ('cython', lambda y: hj.histogram_cython_spec_width(y, bw, 0.0, True, False, nr_bins=nb))):
            yield f'histogram {q}', lambda f=f, x=x: f(x * tweak()), 25, dict(n=len(x))
            yield f'histogram {q}: bad', lambda f=f, x=x: f(x.astype(str)), 25, dict(n=len(x))
        for q in ('numpy', 'iter', 'blas', 'numexpr', 'cython'):
            f = getattr(hj, f'histogram_likelihood_{q}')
            yield f'histogram search {q}', lambda f=f, x=x: f(x * tweak(), [1.0, 1.5], [3, 4], [0.0], [1.0]), 8, dict(n=len(x))
    for it in range(ck.n(3, 30)):
        n = int(rng.integers(4, 60))
        text = ''.join(f'name_{i} = {rng.choice(["1", "2.5", "[1, 2]", "text", "True"])}\n' for i in range(n))
        p = os.path.join(ROOT, f'in{it}.in')
        with open(p, 'w') as f:
            f.write(text + ('broken [1\n' if it % 3 == 2 else ''))
        yield 'inlist' + (': bad' if it % 3 == 2 else ''), lambda p=p: InlistHandler.get_inlist_values(p), 10, dict(n=n)
        q = os.path.join(ROOT, f'in{it}.toml')
        with open(q, 'w') as f:
            f.write(''.join(f'name_{i} = {i}.5\n' for i in range(n)) + ('[broken\n' if it % 3 == 2 else ''))
        yield 'toml inlist' + (': bad' if it % 3 == 2 else ''), lambda p=q: TomlInlistHandler.get_inlist_values(p), 10, dict(n=n)
        yield 'inlist: missing', lambda p=p: InlistHandler.get_inlist_values(p + '_'), 10, {}
    for it in range(ck.n(2, 10)):
        n = int(rng.choice([8, 33, 64]))
        yield 'Chebyshev transform', lambda n=n: ChebyTransform(npts=n), 5, dict(n=n)


for name, f, reps, wit in computations():
    light = name.startswith(('histogram', 'inlist', 'toml', 'Cheby', 'Hough'))
    repeat(name, silent(f), reps, warm=2, wit=wit, **({} if light else LOOSE))


# ---------------------------------------------------------------- complete runs
def script(T, which, name=None, args=()):
    src = os.path.join(build.REPO, 'run_scripts', which)
    dst = os.path.join(T.repo, 'run_scripts', which)
    if not os.path.exists(dst):
        shutil.copy(src, dst)
    keep = sys.argv
    sys.argv = [dst, *([name, 'toml', 'inlists'] if name else []), *args]
    try:
        runpy.run_path(dst, run_name='__main__')
    finally:
        sys.argv = keep


def solver_tree(kind, k):
    root = os.path.join(ROOT, f'{kind}{k}')
    kw = dict(npts=int(rng.integers(36, 60)))
    if kind == 'polytrope':
        mass, radius = float(rng.uniform(2, 9)), float(rng.uniform(1.5, 6))
        kw |= dict(M=mass * M_sun.cgs.value, R=radius * R_sun.cgs.value)
    P = make_star(rng, **kw)
    rot = float(rng.uniform(.01, .1)) * P.w0
    lms = TRIADS[int(rng.integers(len(TRIADS)))]
    lo = [int(x) for x in rng.integers(8, 30, size=3)]
    if lms[1] == lms[2]:
        lo[2] = lo[1] + 3
    ranges = [(a, a + (q == 1)) for q, a in enumerate(lo)]
    _, every = draw_modes(rng, P, lms, ranges, rot, kind != 'polytrope')
    opts = {'coupling_coefficient.adiabatic': kind != 'nonadiabatic',
            'coupling_coefficient.terms_cc_conj': [True, False, False],
            'computation.parallel_mode_coupling': bool(rng.integers(2)), 'computation.angular.cheby_mul': 1,
            'computation.display_progress': bool(rng.integers(2))}
    if kind == 'polytrope':
        opts |= {'coupling_coefficient.compute_for_polytrope': True, 'POLY_model.mass': mass, 'POLY_model.radius': radius,
                 'coupling_coefficient.analytic_polytrope': bool(rng.integers(2))}
    T = pl.Tree(root)
    setup(T, lms, ranges, opts)
    T.write_inlist('inlist')
    for (l, m, n), (_, _, _, ad, nad) in every.items():
        if kind == 'polytrope':
            e = dict(ad, freq=ad['freq'] / P.w0)
            pl.write_poly_mode(T.dirs['pmode'] + 'M8_' + pl.mode_name(e, n), e)
            continue
        for q, d in (('ad', ad), ('nad', nad)):
            pl.write_gyre(T.dirs[q] + 'M8_' + pl.mode_name(ad, n), d)
    if kind == 'polytrope':
        pl.write_poly_struct(T.dirs['pstruct'] + 'poly_n_3.h5', P)
    else:
        pl.write_mesa(T.dirs['mesa'] + 'M8_prof.dat', P.profile())
    return T, dict(kind=kind, lms=lms, ranges=ranges, **opts)


def damage(T, how):
    """Damages the input so that runs fail."""
    d = T.dirs['pmode'] if os.listdir(T.dirs['pmode']) else T.dirs['ad']
    p = d + sorted(os.listdir(d))[0]
    if how == 'truncated':
        with open(p, 'r+b') as f:
            f.truncate(os.path.getsize(p) // 2)
    elif how == 'missing':
        os.remove(p)
    elif how == 'dataset':
        with h5py.File(p, 'r+') as f:
            del f['xi_r']
    elif how == 'short':
        with h5py.File(p, 'r+') as f:
            x = f['xi_r'][:5]
            del f['xi_r']
            f['xi_r'] = x
    elif how == 'inlist':
        with open(os.path.join(T.inlists, 'inlist.toml'), 'a') as f:
            f.write('\n[unfinished\n')
    elif how == 'save':
        shutil.rmtree(T.dirs['out'])
        with open(T.dirs['out'].rstrip('/'), 'w') as f:
            f.write('x')


HOW = ['truncated', 'missing', 'dataset', 'short', 'inlist', 'save']


def after(f, T, where):
    """The run on slightly other numbers than before, figures closed."""
    def g():
        try:
            retouch(T, where)
            f()
        finally:
            plt.close('all')
    return silent(g)


plt.show = lambda *a, **k: None
MODES = ('ad', 'nad', 'pmode')
KINDS = ('adiabatic', 'nonadiabatic', 'polytrope')
for k in range(ck.n(3, 12)):
    T, wit = solver_tree(KINDS[k % 3], k)
    run = after(lambda: script(T, 'solve_quadratic.py', args=['--save_file_name', 'res']), T, MODES)
    with ck.guard('raised', 'a complete run of the solver fails', wit):
        run()
        out = repeat(f'solver run: {wit["kind"]}', run, ck.n(2, 5), warm=1, wit=wit, **LOOSE)
        ck.expect(out.get('raised', 0) == 0, 'raised', f'a complete run of the solver fails: {out}', wit)
        ck.expect(len(T.files()) == 1, 'files', f'one run again and again leaves the files {T.files()}', wit)
    for j in range(ck.n(2, len(HOW))):
        how = HOW[(2 * k + j) % len(HOW)]
        T2, w2 = solver_tree(KINDS[k % 3], f'{k}_{j}')
        damage(T2, how)
        run = after(lambda: script(T2, 'solve_quadratic.py', args=['--save_file_name', 'res']), T2, MODES)
        out = repeat(f'solver run: {w2["kind"]} {how}', run, ck.n(3, 5), warm=2, wit=dict(w2, how=how), **LOOSE)
        ck.observe(f'runs with damage {how}', out.get('raised', 0))
        shutil.rmtree(T2.root, ignore_errors=True)
    shutil.rmtree(T.root, ignore_errors=True)

for k in range(ck.n(4, 14)):
    root = os.path.join(ROOT, f'an{k}')
    os.makedirs(root)
    load, _, style = make_models(rng, root)
    T = pl.Tree(root)
    for q, v in load.items():
        if q == 'use_standard_format':
            T.set('plotting.load.use_custom_name', not v)
        else:
            T.set(f'plotting.load.{q}', v)
    figs = os.path.join(root, 'figs')
    for q in ('numbers_categories', 'q_Q1_condition', 'isolated_mode_properties', 'isolated_stability_validity_estimators',
              'isolated_triad_observables'):
        T.set('analysis.' + q, True)
    for q, v in (('saving.plot.base_dir', figs), ('saving.plot.save_dir', 'run'), ('saving.plot.save_formats', ['png']), ('saving.plot.sharpness.save_name', 'sharp'),
                 ('saving.plot.sharpness.save_subdir', ''), ('saving.plot.overview.save_name', 'over'),
                 ('saving.plot.overview.save_subdir', ''), ('plotting.labels.ax_label.size', 11),
                 ('saving.plot.extra_specifier', ''), ('plotting.labels.tick_label.size', 9), ('plotting.ticks.size', 5),
                 ('plotting.labels.tick_label.pad', 3), ('plotting.colors.matplotlib_color_map', 'viridis'),
                 ('plotting.figure.size', [4, 3]), ('plotting.figure.dpi', 40), ('plotting.plot.show', bool(k % 2)),
                 ('plotting.plot.overview', True), ('plotting.plot.resonance_sharpness', True)):
        T.set(q, v)
    T.write_inlist('inlist')
    for q in range(2 if k % 2 else 1):
        bad = q == 1
        if bad:
            d = os.path.join(root, 'out', 'sub')
            p = os.path.join(d, sorted(os.listdir(d))[-1])
            with open(p, 'r+b') as f:
                f.truncate(os.path.getsize(p) // 2)
        for which, reps in (('analyze_quadratic.py', 6), ('plot_quadratic.py', 2)):
            run = after(lambda which=which: script(T, which), T, ['out'])
            out = repeat(f'{which}: {"bad" if bad else style}', run, reps, warm=2, wit=dict(k=k, style=style, bad=bad),
                         native_limit=1e6, python_limit=20000)
            ck.expect(bool(out.get('raised')) == bad, 'raised', f'{which} with {"damaged" if bad else "intact"} files: {out}',
                      dict(k=k, style=style))
    shutil.rmtree(root, ignore_errors=True)
shutil.rmtree(ROOT, ignore_errors=True)
ck.need('repetitions', 5000)
ck.need('operations that end in an error', 10)
ck.need('operations that return', 40)
for q in ('quad.integrate', 'ld.compute', 'disc.get_integrals', 'fornberg.grid_derivative'):
    ck.need(f'kernel {q}', 3)
ck.finish()
