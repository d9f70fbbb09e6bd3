"""C24: complex arrays, unit labels, eigenvalue-file names and cuts of oscillation data."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C24', 'one case = one conversion, file request or cut with generated data; exact oracles')
build.setup([])
from carr_conv import re_im, re_im_parts  # noqa: E402
from gyre_cutter import GYRECutter  # noqa: E402
from gyre_unit_converter import GYREFreqUnitConverter  # noqa: E402
from lam_tar_gyre import GyreLambdas, gravito_inertial_k  # noqa: E402

rng = ck.rng()
CDT = np.dtype([('re', '<f8'), ('im', '<f8')])


def same(a, b):
    """Equal including signed zeros, NaN pattern, type and shape."""
    return (a.dtype == b.dtype and a.shape == b.shape
            and np.array_equal(a.view(np.float64), b.view(np.float64), equal_nan=True)
            and np.array_equal(np.signbit(a.view(np.float64)), np.signbit(b.view(np.float64))))


def values(n):
    v = 10.0 ** rng.uniform(-300, 300, n) * rng.choice([-1, 1], n)
    sp = rng.random(n) < .15
    v[sp] = rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1.0], sp.sum())
    return v


# ---- complex arrays
for it in range(ck.n(600, 12000)):
    n = int(rng.choice([0, 1, 2, 3, 17, 200]))
    re, im = values(n), values(n)
    s = np.empty(n, CDT)
    s['re'], s['im'] = re, im
    if it % 4 == 1 and n:
        s = np.repeat(s, 2)[::2]                     # strided
    if it % 8 == 2:
        s = s.astype([('re', '>f8'), ('im', '>f8')])
    want = np.empty(n, complex)
    want.real, want.imag = re, im
    wit = dict(n=n, re=re, im=im)
    with np.errstate(all='ignore'), ck.guard('raised', witness=wit):
        keep = s.copy()
        got = re_im(s, 1.0)
        ck.expect(same(got, want), 're-im', 're_im does not return the numbers given', wit)
        f = float(10.0 ** rng.uniform(-5, 5)) * rng.choice([-1, 1])
        w2 = np.empty(n, complex)
        w2.real, w2.imag = re * f, im * f
        ck.expect(same(re_im(s, f), w2), 're-im-factor', 're_im does not multiply both parts by the '
                  'factor', wit)
        fa = rng.uniform(.5, 2, n)
        w2.real, w2.imag = re * fa, im * fa
        ck.expect(same(re_im(s, fa), w2), 're-im-array', 're_im with an array of factors', wit)
        ck.expect(s.tobytes() == keep.tobytes(), 'modified', 're_im modified its input', wit)
        for chk in (True, False):
            ck.expect(same(re_im_parts(re, im, check_for_void=chk), want), 'parts',
                      're_im_parts does not return the parts given', wit)
        back = re_im_parts(got.real, got.imag)
        ck.expect(same(back, want), 'round-trip', 'parts of the result do not restore it', wit)
        if n:
            v = s[int(rng.integers(n))]
            o = np.empty(1, complex)
            o.real, o.imag = v['re'] * f, v['im'] * f
            ck.expect(same(re_im(v, f), o), 'void', 'single structured value', wit)
            ck.observe('void')
    ck.case('complex', (it, n))

# ---- unit labels
LABEL = {'CYC_PER_DAY': 'd$^{-1}$', 'HZ': 'Hz', 'UHZ': r'$\mu$Hz', 'RAD_PER_SEC': 'rad s$^{-1}$'}
for unit, lab in LABEL.items():
    for t in (unit, unit.encode()):
        with ck.guard('label-raised', witness=t):
            ck.expect(GYREFreqUnitConverter.convert(t) == lab, f'label-{unit}', 'label of the unit',
                      GYREFreqUnitConverter.convert(t))
        ck.case('label', repr(t))
for bad in ('', 'hz', 'HZ ', b'', b'rad', 'ACOUSTIC_CUTOFF', 'NONE', '__doc__', 'convert', 'name'):
    with ck.guard('label-raised', witness=bad):
        ck.expect(GYREFreqUnitConverter.convert(bad) == '', 'label-unknown', 'unknown unit has a '
                  'label', bad)
    ck.case('label', repr(bad))

# ---- cuts
SETS = {
    ('structure_coefficient_cuts', False): ['_c_1', '_V_2', '_As', '_U'],
    ('polytropic_cuts', False): [f'_{q}_mode_{i}' for q in ('xi_h', 'xi_r', 'y_1', 'y_2')
                                 for i in (1, 2, 3)],
    ('mesa_gyre_cuts', False): [f'_{q}_mode_{i}' for q in ('deul_phi', 'eul_phi', 'xi_h', 'xi_r',
                                                           'y_1', 'y_2') for i in (1, 2, 3)]
    + ['_gamma_1_adDer_profile'],
    ('pre_profile_load_cuts', False): ['_x', '_M_r', '_rho', '_P', '_Gamma_1', '_brunt_N2_profile'],
    ('pre_profile_load_cuts', True): ['_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile',
                                      '_Gamma_1', '_brunt_n2_profile'],
    ('profile_load_cuts_analytic', True): ['_x', '_mr_profile', '_rho_profile', '_r_profile',
                                           '_p_profile', '_Gamma_1', '_brunt_n2_profile', '_drho',
                                           '_drho2', '_drho3', '_dP', '_dP2', '_dP3', '_dgravpot',
                                           '_dgravpot2', '_dgravpot3']}
EVERY = sorted(set(itertools.chain(*SETS.values())) | {'_other', 'x', '_x_mode_1', '_norm_P'})
SLICES = [None, np.s_[1:], np.s_[:-1], np.s_[1:-1], np.s_[2:5], np.s_[::2], np.s_[:], np.s_[-3:]]


class Data:
    pass


def data(n):
    o = Data()
    for a in EVERY:
        v = rng.normal(size=n)
        setattr(o, a, v + 1j * rng.normal(size=n) if rng.random() < .3 else v)
    return o


CASES = list(itertools.product(SETS, SLICES)) * ck.n(3, 40)
for it, ((name, poly), sl) in enumerate(CASES):
    o = data(int(rng.integers(1, 40)))
    before = {a: getattr(o, a).copy() for a in EVERY}
    kw = {} if sl is None else {'cut_slice': sl}
    if poly or rng.integers(2):
        kw['polytrope'] = poly
    given = [name, name.upper(), name.title()][it % 3]
    wit = dict(name=given, poly=poly, slice=str(sl))
    with ck.guard('cut-raised', witness=wit):
        GYRECutter.cutter(o, given, **kw)
        for a in EVERY:
            w = before[a][sl if sl is not None else np.s_[1:]] if a in SETS[name, poly] else before[a]
            ck.expect(np.array_equal(getattr(o, a), w), f'cut-{name}', f'{a} was cut wrongly', wit)
    ck.case('cut', (it, name, poly, str(sl)))
for it in range(ck.n(60, 800)):
    o = data(int(rng.integers(1, 40)))
    before = {a: getattr(o, a).copy() for a in EVERY}
    want = [EVERY[i] for i in rng.permutation(len(EVERY))[:int(rng.integers(0, 8))]]
    with ck.guard('cut-raised', witness=want):
        keep = list(want)
        GYRECutter.cutter(o, want, cut_slice=np.s_[1:-1])
        for a in EVERY:
            w = before[a][1:-1] if a in want else before[a]
            ck.expect(np.array_equal(getattr(o, a), w), 'cut-list', f'{a} was cut wrongly', want)
        ck.expect(want == keep, 'cut-list-modified', 'the list was modified', keep)
        # centre and surface cuts commute with their combination
        p, q = data(20), data(20)
        for a in EVERY:
            setattr(q, a, getattr(p, a).copy())
        GYRECutter.cutter(p, 'structure_coefficient_cuts')
        GYRECutter.cutter(p, 'structure_coefficient_cuts', cut_slice=np.s_[:-1])
        GYRECutter.cutter(q, 'structure_coefficient_cuts', cut_slice=np.s_[1:-1])
        ck.expect(all(np.array_equal(getattr(p, a), getattr(q, a)) for a in EVERY), 'cut-compose',
                  'two cuts differ from the combined one', None)
    ck.case('cut-list', it)
for bad in ('nonsense', '', 'analytic'):
    o = data(5)
    ck.raises(lambda: GYRECutter.cutter(o, bad), 'cut-unknown', 'unknown set of cuts accepted', bad)
    ck.case('cut', ('unknown', bad))

# ---- names and contents of the eigenvalue files
STUB = '''
class TarFit:
    def __init__(self, text): self.text = text
    @staticmethod
    def load(fn):
        assert isinstance(fn, str)
        return TarFit(open(fn).read())
    def lam(self, nu): return (self.text, nu)
'''
base = tempfile.mkdtemp(prefix='c24-')
old = os.getcwd()
try:
    os.makedirs(f'{base}/g/src/tar')
    os.makedirs(f'{base}/g/data/tar')
    with open(f'{base}/g/src/tar/gyre_tar_fit.py', 'w') as fh:
        fh.write(STUB)
    KR, MR = range(-6, 7), range(-6, 7)
    for m, k in itertools.product(MR, KR):
        with open(f'{base}/g/data/tar/tar_fit.m{m:+d}.k{k:+d}.h5', 'w') as fh:
            fh.write(f'{m},{k}')
    with ck.guard('lambda-raised'):
        os.environ.pop('GYRE_DIR', None)
        gl = GyreLambdas(f'{base}/g')
        os.environ['GYRE_DIR'] = f'{base}/g'
        gl2 = GyreLambdas()
        for l in range(0, 7):
            for m in range(-l, l + 1):
                ck.expect(gravito_inertial_k(l, m) == l - abs(m) == GyreLambdas.get_k(l, m), 'k',
                          'k is not l - |m|', (l, m))
                for g in (gl, gl2):
                    nu = float(rng.normal())
                    got = g.get_lambda(l, m, nu)
                    ck.expect(got == (f'{m},{l - abs(m)}', nu), 'lambda', 'eigenvalue of another mode '
                              'or spin', dict(l=l, m=m, nu=nu, got=got))
                ck.case('lambda', (l, m))
        for it in range(ck.n(50, 600)):
            k = int(rng.integers(1, 6))
            ls = [int(x) for x in rng.integers(0, 7, k)]
            ms = [int(rng.integers(-l, l + 1)) for l in ls]
            nus = [float(x) for x in rng.normal(size=k)]
            got = gl.get_lambda(ls, ms, nus)
            ck.expect(list(got) == [(f'{m},{l - abs(m)}', nu) for l, m, nu in zip(ls, ms, nus)],
                      'lambda-list', 'list of eigenvalues', dict(l=ls, m=ms, nu=nus, got=got))
            ck.case('lambda-list', it)
    os.remove(f'{base}/g/data/tar/tar_fit.m+1.k+0.h5')
    os.makedirs(f'{base}/g/data/tar/tar_fit.m-1.k+0.h5.d')
    ck.raises(lambda: gl.get_lambda(1, 1, .5), 'lambda-missing', 'missing file accepted')
    ck.raises(lambda: gl.get_lambda(9, 8, .5), 'lambda-missing', 'missing file accepted')
    os.makedirs(f'{base}/empty')
    for bad in (f'{base}/empty', f'{base}/none', None):
        ck.raises(lambda: GyreLambdas(bad), 'lambda-directory', 'unsuitable directory accepted', bad)
        ck.case('lambda', ('directory', bad is None))
finally:
    os.chdir(old)
    sys.path[:] = [p for p in sys.path if not p.startswith(base)]
    shutil.rmtree(base)
ck.need('void', 100)
ck.need('lambda', 40)
ck.finish()
