"""C17: result files read back as exactly what the solver held (offline comparison of the written
HDF5 file with the solver's data; histories of writes compared with a model of the file)."""
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import h5py
import numpy as np

from vh import build
from vh.report import Check

ck = Check('C17', 'one case = one set of results saved, or one sequence of writes to one file; every '
           'stored number, attribute and file name compared')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.data_handling import NumericalSaver  # noqa: E402
from aesolver.data_handling.data_specific.hdf5_saver import HDF5Saver  # noqa: E402
from aesolver.data_handling.data_specific.hdf5_specific import overwrite_dataset  # noqa: E402
from aesolver.data_handling.unpacker import UnPacker  # noqa: E402

rng = ck.rng()
ROOT = tempfile.mkdtemp(prefix='c17_')
FREQS = ['inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas',
         'inert_dimless_mode_freqs', 'corot_dimless_mode_freqs', 'inert_dimless_mode_omegas',
         'corot_dimless_mode_omegas']


def val(shape=None):
    x = rng.normal(size=shape) * 10. ** rng.integers(-12, 13, size=shape)
    if rng.random() < .1:
        if shape is None:
            return float(rng.choice([np.nan, np.inf, 0., -0.]))
        x = np.array(x)
        x.flat[rng.integers(0, x.size)] = rng.choice([np.nan, np.inf, -np.inf, 0.])
    return x


def numbers():
    """Quantum numbers of a triad."""
    m = [int(x) for x in rng.integers(-12, 13, size=3)]
    return [abs(a) + int(rng.integers(0, 12)) + (a == 0) for a in m], m


def solver(polytropic, lm=None, n=None):
    n = int(rng.integers(1, 30)) if n is None else n
    ell, m = lm or numbers()
    cplx = rng.random() < .15
    # the columns that hold complex numbers (a sum of complex terms can be real)
    kinds = rng.random(4) < rng.choice([.3, 1.])
    coup, stat, freq, cst = [], [], [], []
    for _ in range(n):
        def cc(i):
            z = val()
            return complex(z, val()) if cplx and kinds[i] else z
        fail = rng.random() < .2
        terms = np.array([cc(3) for _ in range(4)])
        coup.append((0., 0., 0., val((2, 1)), val((2, 1)), np.zeros(3), bool(rng.random() < .5), val((1,)),
                     np.zeros(4)) if fail else
                    (cc(0), cc(1), cc(2), val((2, 1)), val((2, 1)), val(3), bool(rng.random() < .5), val((1,)),
                     terms))
        stat.append(None if polytropic else {
            'equilibrium amplitudes': np.zeros(3) if fail else val(3),
            'surface flux variations': np.zeros(3) if fail else val(3),
            'linear driving rates': rng.normal(size=3) * (rng.random(3) < .9), 'gamma': rng.normal(),
            'detunings': val(), 'q factor': val(), 'critical q factor': val(),
            'critical parent amplitude': None if fail else val(),
            'stationary relative phase': None if fail else val(),
            'stationary relative luminosity phase': None if fail else val(),
            'hyperbolic': bool(rng.random() < .5), 'linearly stable': (not fail) and bool(rng.random() < .8)})
        f = [val(3) for _ in range(8)]
        unit = 'rad_per_sec'
        freq.append((*f, val(3), val(), unit) if polytropic else
                    (*f, val(3), val(3), val(), unit, *[val(3) for _ in range(8)]))
        cst.append((float(rng.integers(3, 300)) / 3., int(rng.integers(-40, 80))))
    return NS(stat_sol_info=stat, coupling_info=coup, coupling_statistics=cst, mode_freq_info=freq,
              _mode_info_object=NS(mode_l=ell, mode_m=m, combinations_radial_orders=[
                  tuple(int(x) for x in rng.integers(-1, 2, size=3)
                        * rng.integers(0, int(rng.choice([60, 300, 40000])), size=3)) for _ in range(n)]),
              _numerical_integration_method=str(rng.choice(['trapz', 'simpson'])),
              _use_cheby=bool(rng.random() < .5), _cheby_order_mul=int(rng.integers(1, 9)),
              _cheby_blow_up=bool(rng.random() < .5), _cheby_blow_up_fac=float(val()))


def num(x):
    return np.array([np.nan if v is None else v for v in x])


def expected(s, polytropic):
    """Datasets and attributes that describe the solver's data, under the documented names."""
    inf = s._mode_info_object
    ell, m = np.array(inf.mode_l), np.array(inf.mode_m)
    att = {('', 'num_int_method'): s._numerical_integration_method, ('', 'use_cheby'): s._use_cheby,
           ('', 'cheby_order_mul'): s._cheby_order_mul, ('', 'cheby_blow_up'): s._cheby_blow_up,
           ('', 'cheby_blow_up_fac'): s._cheby_blow_up_fac, ('quantum_numbers', 'l'): ell,
           ('quantum_numbers', 'm'): m, ('quantum_numbers', 'k'): ell - np.abs(m),
           ('mode_frequency_info', 'frequency_units'): s.mode_freq_info[0][10 if polytropic else 11]}
    d = {'quantum_numbers/n': np.array(inf.combinations_radial_orders),
         'mode_statistics/wu': np.array([c[1] for c in s.coupling_statistics]),
         'coupling/generic/|kappa|': num([c[0] for c in s.coupling_info]),
         'coupling/generic/|kappa_norm|': num([c[1] for c in s.coupling_info]),
         'coupling/generic/|eta|': num([c[2] for c in s.coupling_info]),
         'coupling/generic/adiabatic': np.array([c[6] for c in s.coupling_info]),
         'coupling/generic/quadratic_terms': np.array([c[8] for c in s.coupling_info]),
         'normalization/radial': np.array([c[5] for c in s.coupling_info]),
         'rotation/spin_factors': np.array([f[8] for f in s.mode_freq_info]),
         'rotation/surface_rotation_frequency': np.array(
             [f[9 if polytropic else 10] for f in s.mode_freq_info])}
    for i, k in enumerate(FREQS):
        d['mode_frequency_info/' + k] = np.array([f[i] for f in s.mode_freq_info])
        if not polytropic:
            d['nad_mode_frequency_info/' + k] = np.array([f[12 + i] for f in s.mode_freq_info])
    if not polytropic:
        att[('nad_mode_frequency_info', 'frequency_units')] = s.mode_freq_info[0][11]
        st = s.stat_sol_info
        g = np.array([x['linear driving rates'] for x in st])
        d['linear_driving/driving_rates'] = g
        d['linear_driving/quality_factors'] = np.array([f[9] for f in s.mode_freq_info])
        d['checks/pre_checks'] = np.array([
            [a > 0 > b and c < 0, a < 0 < b and c > 0, a > 0 and b > 0 and c > 0, x['gamma'] < 0,
             x['linearly stable'], x['hyperbolic']] for (a, b, c), x in zip(g, st)])
        for k, name in (('detunings', 'detunings'), ('gammas', 'gamma'),
                        ('critical_parent_amplitudes', 'critical parent amplitude'),
                        ('stationary_relative_phases', 'stationary relative phase'),
                        ('stationary_relative_luminosity_phases', 'stationary relative luminosity phase'),
                        ('q_factors', 'q factor'), ('critical_q_factors', 'critical q factor')):
            d['coupling/stationary_three_mode/' + k] = num([x[name] for x in st])
        for k, name in (('equilibrium_theoretical_amplitudes', 'equilibrium amplitudes'),
                        ('surface_flux_variations', 'surface flux variations')):
            d['coupling/stationary_three_mode/' + k] = np.array([x[name] for x in st])
    return d, att


def same(got, want):
    if isinstance(got, h5py.Empty) or isinstance(want, h5py.Empty):
        return isinstance(got, h5py.Empty) and isinstance(want, h5py.Empty)
    if isinstance(want, (str, bytes)) or isinstance(got, (str, bytes)):
        def text(x):
            x = x.item() if isinstance(x, np.ndarray) and x.shape == () else x
            return x.decode() if isinstance(x, bytes) else x
        return text(got) == text(want)
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or (got.dtype.kind == 'b') != (want.dtype.kind == 'b'):
        return False
    return bool(np.array_equal(got, want, equal_nan=got.dtype.kind in 'fc' and want.dtype.kind in 'fc'))


def read(path):
    """Everything in the file: ({dataset: value}, {(group, attribute): value})."""
    d, a = {}, {}
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                d[name] = obj[()]
            for k, v in obj.attrs.items():
                a[(name, k)] = v
        visit('', f)
        f.visititems(visit)
    return d, a


def compare(path, want_d, want_a, key, wit):
    d, a = read(path)
    for n, w in want_d.items():
        ck.observe('dataset')
        if n not in d:
            ck.expect(False, f'{key}-dataset-missing', f'data set {n} was not stored', wit)
        else:
            ck.expect(same(d[n], w), f'{key}-{n.replace("/", "-")}', f'{n} reads back as something else',
                      {**wit, 'dataset': n, 'read': d[n], 'held': w})
    for n, w in want_a.items():
        ck.observe('attribute')
        if n not in a:
            ck.expect(False, f'{key}-attribute-missing', f'attribute {n} was not stored', wit)
        else:
            ck.expect(same(a[n], w), f'{key}-attribute-{n[1]}', f'attribute {n} reads back as something else',
                      {**wit, 'read': a[n], 'held': w})
    return d, a


def files(base):
    return {os.path.join(r, f) for r, _, fs in os.walk(base) for f in fs}


def name():
    stem = ''.join(rng.choice(list('abcXYZ019_'), size=int(rng.integers(1, 9))))
    if rng.random() < .5:
        i = int(rng.integers(0, len(stem) + 1))
        stem = stem[:i] + str(rng.choice(['-', '.5', '+', ' ', '-0.2-', 'é', '.v2.'])) + 'q' + stem[i:]
    return stem


def result_files():
    """Several triads saved under the same name in one folder: every one gets its own file."""
    base = os.path.join(ROOT, f'b{ck.evaluations}' + str(rng.choice(['', '.v1', '-x'])))
    os.makedirs(base)
    save, seen = name(), {}
    sub = str(rng.choice(['', '', 'sub', 'sub/', '/sub', 's.1']))
    extra = str(rng.choice(['', '', '_spec', '_0.1']))
    trailing = str(rng.choice(['', '/']))
    lms = {}
    for _ in range(int(rng.integers(1, 5))):
        lm = numbers()
        if rng.random() < .5 and lms:            # differing in one sign or by one parity only
            lm = [list(x) for x in list(lms.values())[0]]
            i = int(rng.integers(0, 3))
            if lm[1][i] and rng.random() < .5:
                lm[1][i] = -lm[1][i]
            else:
                lm[0][i] += 1
        lms[str(lm)] = lm
    for lm in lms.values():
        poly = bool(rng.random() < .3)
        s = solver(poly, lm)
        want = expected(s, poly)
        wit = {'name': save, 'sub': sub, 'extra': extra, 'l': lm[0], 'm': lm[1], 'polytropic': poly,
               'triads': len(s.coupling_info)}
        before = files(base)
        with ck.guard('save', witness=wit):
            sv = NumericalSaver(save_name=save, solving_object=s, base_dir=base + trailing, save_dir=sub,
                                extra_specifier=extra, polytropic=poly, nr_modes=3)
            sv()
            new = files(base) - before
            ck.case('result-file', (repr(lm), save, sub, extra, poly, len(s.coupling_info)), wit)
            if not ck.expect(len(new) == 1, 'file-shared', 'a new triad was not written to exactly one new file',
                             {**wit, 'new': sorted(new), 'present': sorted(before)}):
                continue
            path = new.pop()
            seen[path] = want
            b = os.path.basename(path)
            k = [a - abs(c) for a, c in zip(*lm)]
            tag = f'k_{"_".join(map(str, k))}_m_{"_".join(map(str, lm[1]))}'
            ck.expect(tag in b and b.startswith(save) and b.endswith('.h5'), 'file-name',
                      'the file name does not identify the triad', {**wit, 'file': b, 'tag': tag})
            ck.expect(os.path.normpath(os.path.dirname(path)) == os.path.normpath(
                f'{base}/hdf5_output/{sub.strip("/")}{extra}'), 'folder',
                'the file is not in the requested folder', {**wit, 'file': path})
            compare(path, *want, 'result', wit)
    for path, want in seen.items():
        compare(path, *want, 'kept', {'file': path})
    shutil.rmtree(base)


def write_history():
    """Sequence of complete results written to one file in the three opening modes."""
    base = os.path.join(ROOT, f'h{ck.evaluations}')
    os.makedirs(base)
    lm, poly = numbers(), bool(rng.random() < .3)
    n = int(rng.integers(1, 6))
    D, A, hist, path = {}, {}, [], None
    for step in range(int(rng.integers(2, 6))):
        mode = 'w' if step == 0 else str(rng.choice(['w', 'a', 'r+', 'r+', 'r+']))
        k = n if rng.random() < .5 else int(rng.integers(1, 6))
        s = solver(poly, lm, k)
        hist.append((mode, k))
        st = NS(_store_poly=poly, _stat_sol_data=s.stat_sol_info, _couple_data=s.coupling_info,
                _f_hand=s.mode_freq_info, _coupling_stats=s.coupling_statistics,
                _mode_info=s._mode_info_object, _nr_combos=k, _nr_modes=3,
                _num_int_method=s._numerical_integration_method, _use_cheby=s._use_cheby,
                _cheby_order_mul=s._cheby_order_mul, _cheby_blow_up=s._cheby_blow_up,
                _cheby_blow_up_fac=s._cheby_blow_up_fac)
        wit = {'history': hist, 'polytropic': poly}
        with ck.guard('history', witness=wit):
            u = UnPacker(st)
            u()
            sv = HDF5Saver(f'{base}/file.h5', u, poly)
            sv.h5_mode = {'w': (False, False), 'a': (False, True), 'r+': (True, False)}[mode]
            ck.expect(sv.h5_mode == mode, 'mode', 'the opening mode is another one', wit)
            sv.save_data()
            (path,) = files(base)
            d, a = expected(s, poly)
            if mode == 'w':
                D, A = d, a
            elif mode == 'r+':
                D.update(d)
                A.update(a)
            else:
                D = {**d, **D}
                A.update(a)
            ck.case('write', (tuple(hist), poly, repr(lm)), wit)
            got, _ = compare(path, D, A, 'history', wit)
            ck.expect(set(got) == set(D), 'history-extra', 'data sets appeared or disappeared',
                      {**wit, 'difference': sorted(set(got) ^ set(D))})
            if rng.random() < .4:                         # something else the user keeps in the file
                with h5py.File(path, 'r+') as f:
                    x = f'user/x{step}'
                    D[x] = rng.normal(size=int(rng.integers(1, 5)))
                    f[x] = D[x]
                    A[('', f'note{step}')] = f'step {step}'
                    f.attrs[f'note{step}'] = f'step {step}'
    shutil.rmtree(base)


class Saver(HDF5Saver):
    """The saver without a complete result: only its writing methods are used."""

    def __init__(self):
        pass


def anything():
    t = int(rng.integers(0, 12))
    if t == 0:
        return None
    if t == 1:
        return 'tëxt ' * int(rng.integers(0, 3)) + 'x'
    if t == 2:
        return int(rng.integers(-2**62, 2**62))
    if t == 3:
        return float(val())
    if t == 4:
        return bool(rng.random() < .5)
    if t == 5:
        return complex(val(), val())
    shape = tuple(int(x) for x in rng.choice([1, 1, 2, 3, 5], size=int(rng.integers(0, 3))))
    if t == 6:
        return rng.random(shape) < .5
    if t == 7:
        return rng.integers(-2**31, 2**31, size=shape).astype([np.int32, np.int64][rng.integers(0, 2)])
    if t == 8:
        return np.asarray(val(shape)) + 1j * np.asarray(val(shape))
    if t == 9:
        return np.asarray(rng.normal(size=shape), dtype=np.float32)
    return np.asarray(val(shape))


def value_history():
    """Single values of every type, written and overwritten in any order through the saver's methods."""
    path = os.path.join(ROOT, f'v{ck.evaluations}.h5')
    sv, D, A, hist = Saver(), {}, {}, []
    sv._h5_mode = 'w'
    for step in range(int(rng.integers(3, 14))):
        if step:
            sv._h5_mode = str(rng.choice(['r+', 'r+', 'a']))
        grp, nm = str(rng.choice(['g', 'g/h', 'k'])), str(rng.choice(['a', 'b', '|c|']))
        v, act = anything(), int(rng.integers(0, 4))
        hist.append((sv._h5_mode, act, grp, nm, type(v).__name__ if not isinstance(v, np.ndarray)
                     else f'{v.dtype}{v.shape}'))
        wit = {'history': hist[-6:], 'value': v}
        e = h5py.Empty('f') if v is None else v
        with ck.guard('value', witness=wit):
            with h5py.File(path, sv._h5_mode) as f:
                if act == 0:
                    sv._create_grouped_attributes(f, '', [nm], [v])
                    A[('', nm)] = e
                elif act == 1:
                    sv._create_grouped_attributes(f, grp, [nm], [v])
                    A[(grp, nm)] = e
                elif act == 2 and f'{grp}/{nm}' in D:
                    overwrite_dataset(f, f'{grp}/{nm}', e)
                    D[f'{grp}/{nm}'] = e
                else:
                    if act == 3:
                        sv._create_grouped_datasets(f, grp, [nm], [v], [None])
                    else:
                        sv._create_overwrite_dataset(f, grp, nm, v)
                    if f'{grp}/{nm}' not in D or sv._h5_mode == 'r+':
                        D[f'{grp}/{nm}'] = e
            ck.case('value-write', (len(hist), *hist[-1]), wit)
            compare(path, D, A, 'value', wit)
    if os.path.exists(path):
        os.remove(path)


try:
    for _ in range(ck.n(60, 600)):
        result_files()
    for _ in range(ck.n(50, 500)):
        write_history()
    VALUES = all(hasattr(HDF5Saver, x) for x in ('_create_grouped_attributes', '_create_grouped_datasets',
                                                 '_create_overwrite_dataset'))
    for _ in range(ck.n(120, 1500) if VALUES else 0):
        value_history()
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
ck.need('result-file', 60)
ck.need('write', 50)
ck.need('value-write', 200 if VALUES else 0)
ck.finish()
