"""C18: selection of model files by name, values loaded from them, units and dimensions."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np
from astropy.constants import G, M_sun, R_sun

from vh import build
from vh.report import Check

ck = Check('C18', 'one case = one generated directory of model files and one request; the files are '
           'generated together with what each of them is and holds')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.model_handling import ModelLoader  # noqa: E402
from aesolver.model_handling import subselection_classes as ssc  # noqa: E402
from aesolver.model_handling.enumeration_files import (  # noqa: E402
    GYREDetailFiles, MESAProfileFiles, PolytropeModelFiles, PolytropeOscillationModelFiles)
from aesolver.model_handling.read_models import ModelReader  # noqa: E402

rng = ck.rng()
VOID = np.dtype([('re', '<f8'), ('im', '<f8')])
TMP = tempfile.mkdtemp(prefix='c18_')


def attempt(f, *a, **k):
    """Value, or the exception (SystemExit included) that was raised."""
    try:
        with contextlib.redirect_stderr(io.StringIO()):    # progress bars
            return f(*a, **k)
    except BaseException as e:                       # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        return e


def pick(seq):
    return seq[int(rng.integers(len(seq)))]


# ---------------------------------------------------------------- names of mode files
SUBS = ('detail', 'summary', 'nad', 'ad', 'KIC6352430', 'M6.00_Z0.014', 'detail_fine', 'run-b')


def mode_name(l, m, n, g, subs, suffix='h5'):
    sep = pick(['_', '', '.'])
    q = f'l{l}{sep}m{m:+d}{sep}n+{n}'
    typ = 'g_mode' if g else 'p_mode'
    head = '_'.join(subs)
    if head and rng.random() < .2:
        head += pick(['_model1', '_l9', '_tail3', '_m-7', '_n+8'])       # decoys before the numbers
    parts = [head, typ, q] if rng.random() < .6 else [head, q, typ]
    return '_'.join(p for p in parts if p) + '.' + suffix


def quantum():
    n = int(rng.choice([1, 2, 3, 9, 10, 11, 12, 20, 21, 22, 29, 99, 100, 102, 120, 200, 210, 222]))
    l = int(rng.choice([0, 1, 2, 3, 4, 10, 11, 12, 20, 21]))
    return l, int(rng.integers(-l, l + 1)), n


def directory():
    """Descriptions of the files: (l, m, n, g, substrings)."""
    out = []
    for _ in range(int(rng.integers(1, 12))):
        l, m, n = quantum()
        f = (l, m, n, bool(rng.random() < .6), tuple(rng.choice(SUBS, int(rng.integers(0, 4)),
                                                               replace=False)))
        out.append(f)
        # neighbours that differ in one respect, down to one digit
        while rng.random() < .6:
            l, m, n, g, s = f
            k = int(rng.integers(7))
            if k == 0:
                n = int(pick([int(f'{n}{rng.integers(10)}'), max(1, n // 10), n + 1]))
            elif k == 1:
                m = -m
            elif k == 2:
                l = int(pick([l + 1, int(f'{max(l, 1)}{rng.integers(10)}')]))
            elif k == 3:
                m = int(pick([m * 10, m + 1]))
            elif k == 4:
                g = not g
            elif k == 5:
                s = s[:-1]
            out.append((l, m, n, g, s))
    return out


def wanted(f, req, k):
    l, m, n, g, s = f
    sub = req['sub']
    name = '_'.join(s)
    if isinstance(sub, str):
        ok = sub in name
    elif isinstance(sub, list):
        ok = sub[k] in name
    elif isinstance(sub, tuple):
        ok = all(x in name for x in sub)
    else:
        ok = True
    return ok and (l, m, n) == (req['l'][k], req['m'][k], req['n'][k]) and g == req['g'][k]


def request(files, nm):
    base = [pick(files) if rng.random() < .8 else (*quantum(), bool(rng.random() < .6), ())
            for _ in range(nm)]
    req = {q: [b[i] for b in base] for i, q in enumerate('lmng')}
    k = int(rng.integers(4))
    has = [b[4] for b in base]
    req['sub'] = (None if k == 0 else pick(SUBS) if k == 1 and not has[0] else
                  (has[0][0] if has[0] else 'detail') if k == 1 else
                  [(h[0] if h else pick(['', 'detail'])) for h in has] if k == 2 else
                  tuple(has[0]))
    return req


for it in range(ck.n(400, 8000)):
    files = directory()
    names = {}
    for f in files:
        nm_ = mode_name(*f)
        names.setdefault(nm_, f)
    req = request(files, 3)
    cls = pick([ssc.GYREDetailSubSelector, ssc.PolytropeOscillationModelSubSelector])
    wit = dict(names=sorted(names), request=req, selector=cls.__name__)
    with ck.guard('select-raised', witness=wit):
        sel = cls(search_l=req['l'], search_m=req['m'], search_n=req['n'])
        for k in range(3):
            for nm_, f in names.items():
                # the degenerate decoys may themselves spell the wanted substring: use the name
                want = wanted(f, req, k)
                if not want and req['sub'] is not None:
                    subs = ([req['sub']] if isinstance(req['sub'], str) else
                            [req['sub'][k]] if isinstance(req['sub'], list) else list(req['sub']))
                    want = all(x in nm_ for x in subs) and wanted(
                        (*f[:4], tuple(subs)), req, k) if subs else want
                got = sel.subselect(name=nm_, additional_substring=req['sub'], mode_number=k + 1,
                                    g_mode=req['g'][k])
                ck.expect(got is want or (got == want and isinstance(got, (bool, np.bool_))),
                          'select', f'{cls.__name__} gives {got} for {nm_!r}, mode {k + 1}', wit)
                ck.observe('verdict-selected' if want else 'verdict-rejected')
    ck.case('name-selection', (sorted(names), repr(req)))

# ---------------------------------------------------------------- names of structure files
for it in range(ck.n(200, 4000)):
    suf = str(pick(['dat', 'data', 'h5', 'hdf5', 'txt']))
    subs = [None, (), ('profile',), ('profile', 'KIC1'), ['profile'], ['M3', 'profile']][it % 6]
    mesa = it % 2 == 0
    sel = (ssc.MESAProfileSubSelector(mesa_file_suffix=suf) if mesa
           else ssc.PolytropeModelSubSelector(polytrope_model_suffix=suf))
    for _ in range(8):
        stem = pick(['profile', 'profile1', 'KIC1_profile', 'M3_profile_KIC1', 'M3', 'x.profile.KIC1',
                     'my dat profile', 'profile.dat.v2', 'KIC1.h5_profile', 'gyre_profile',
                     'profile_gyre', 'M3_GYRE_profile_KIC1', 'profile.GYRE_in'])
        end = pick([suf, suf, suf, suf + '~', suf + '.bak', suf[:-1], 'x' + suf, suf + '2', suf + '.h5',
                    'dat', 'h5', 'GYRE'])
        name = f'{stem}.{end}'
        want = (name.rsplit('.', 1)[1] == suf and all(s in name for s in (subs or ()))
                and not (mesa and ('gyre' in name or 'GYRE' in name)))
        with ck.guard('structure-raised', witness=name):
            got = sel.subselect(name=name, additional_substring=subs)
            ck.expect(bool(got) == want, 'structure-select', f'{type(sel).__name__}({suf}) gives {got} '
                      f'for {name!r} with {subs}', None)
        ck.observe('structure-selected' if want else 'structure-rejected')
    ck.case('structure-selection', (it, suf, repr(subs)))


# ---------------------------------------------------------------- files with content
def cplx(n):
    v = np.empty(n, VOID)
    v['re'], v['im'] = rng.standard_normal(n) * 10. ** rng.uniform(-5, 5), rng.standard_normal(n)
    return v


GY_C = ('xi_r xi_h eul_phi deul_phi eul_P eul_rho eul_T lag_P lag_rho lag_T lag_L y_1 y_2 y_3 y_4 y_5 '
        'y_6 lambda Yt_1 Yt_2 I_0 I_1 dzeta_dx').split()
GY_R = ('V_2 As U c_1 Gamma_1 nabla nabla_ad dnabla_ad Omega_rot M_r P rho T x dE_dx dW_dx '
        'dW_eps_dx dtau_ss_dx dtau_tr_dx upsilon_r kap_rho kap_T c_lum').split()
GY_AC = 'omega freq l_i xi_r_ref xi_h_ref eul_phi_ref deul_phi_ref lag_L_ref'.split()
GY_AR = ('M_star R_star L_star Delta_p Delta_g E E_p E_g E_norm H W W_eps tau_ss tau_tr eta x_ref '
         'alpha_0 beta').split()
CSI = {'M_star': 1e-3, 'R_star': 1e-2, 'L_star': 1e-7, 'M_r': 1e-3, 'P': .1, 'rho': 1e3}


def void_attr(z):
    return np.array([(z.real, z.imag)], dtype=VOID)[0]


def gyre_file(path, l, m, n, ident):
    k = int(rng.integers(2, 30))
    d = {q: cplx(k) for q in GY_C}
    d |= {q: 10. ** rng.uniform(-3, 3, k) * rng.choice([-1, 1], k) for q in GY_R}
    a = {q: complex(rng.standard_normal(), rng.standard_normal()) for q in GY_AC}
    a |= {q: float(10. ** rng.uniform(-3, 3)) for q in GY_AR}
    a |= {'M_star': float(10 ** rng.uniform(32, 36)), 'R_star': float(10 ** rng.uniform(9, 13)),
          'L_star': float(10 ** rng.uniform(32, 39)), 'l': l, 'm': m, 'n_g': n, 'n_p': 0, 'n_pg': -n,
          'n': k, 'j': ident, 'freq_units': b'UHZ', 'freq_frame': b'INERTIAL'}
    if rng.random() < .3:                            # not every file holds every quantity
        for q in rng.choice(GY_C[:11] + GY_R[:9], 3):
            d.pop(str(q), None)
        if rng.random() < .5:
            a.pop('E', None)
    for q in ('P', 'rho', 'T'):                      # needed by their perturbations
        d.setdefault(q, 10. ** rng.uniform(-3, 3, k))
    with h5py.File(path, 'w') as h:
        for q, v in d.items():
            h.create_dataset(q, data=v)
        for q, v in a.items():
            h.attrs[q] = (void_attr(v) if isinstance(v, complex) else v if isinstance(v, bytes)
                          else np.array([v], np.int32 if isinstance(v, int) else float)[0])
        h.create_dataset('not_a_gyre_quantity', data=np.ones(3))
    return d | a


def gyre_expected(c, system):
    """What the loader has to return, besides the raw values."""
    si = system.upper() == 'SI'
    v = {q: (x * CSI[q] if si and q in CSI else x) for q, x in c.items()}
    g = G.si.value if si else G.cgs.value
    M, R = v['M_star'], v['R_star']
    fac = dict.fromkeys(('xi_r', 'xi_h', 'xi_r_ref', 'xi_h_ref'), R)
    fac |= dict.fromkeys(('eul_phi', 'eul_phi_ref'), g * M / R)
    fac |= dict.fromkeys(('deul_phi', 'deul_phi_ref'), g * M / R ** 2)
    fac |= {p + q: v[q] for p in ('eul_', 'lag_') for q in ('P', 'rho', 'T')}
    fac |= dict.fromkeys(('Omega_rot', 'Delta_p', 'Delta_g'), np.sqrt(g * M / R ** 3))
    fac |= dict.fromkeys(('lag_L', 'lag_L_ref'), v['L_star'])
    fac |= dict.fromkeys(('E', 'E_p', 'E_g', 'dE_dx'), M * R ** 2)
    fac |= dict.fromkeys(('H', 'W', 'W_eps', 'tau_ss', 'tau_tr', 'dW_dx', 'dW_eps_dx', 'dtau_ss_dx',
                          'dtau_tr_dx'), g * M ** 2 / R)
    out = {'G': g}
    for q, x in v.items():
        z = x['re'] + 1j * x['im'] if getattr(x, 'dtype', None) == VOID else x
        if q in fac:
            out[q + '_dim'] = z * fac[q]
            out[q] = x                               # the value in the file stays available
        else:
            out[q] = z
    return out


def same(got, want, rtol=1e-13):
    got, want = np.asarray(got), np.asarray(want)
    if want.dtype == VOID:
        return got.dtype == VOID and np.array_equal(got, want)
    if want.dtype.kind in 'SU':
        txt = [x.item().decode() if isinstance(x.item(), bytes) else x.item() for x in (got, want)]
        return got.dtype.kind in 'SUO' and txt[0] == txt[1]
    if got.dtype == VOID and want.dtype.kind == 'c':
        return got.size == want.size and np.array_equal(got['re'] + 1j * got['im'], want)
    if got.dtype.names is not None or got.dtype.kind not in 'iufcb':
        return False
    if got.size != want.size or (want.ndim and got.shape != want.shape):
        return False
    if want.dtype.kind in 'iub':
        return bool(np.all(got == want))
    g, w = got.reshape(-1).astype(complex), want.reshape(-1).astype(complex)
    return bool(np.all(np.abs(g.real - w.real) <= rtol * np.abs(w.real)) and
                np.all(np.abs(g.imag - w.imag) <= rtol * np.abs(w.imag)))


def compare(got, want, key, wit, allowed=()):
    for q, x in want.items():
        if not ck.expect(q in got, f'{key}-missing', f'{q} was in the file but is not loaded', wit):
            continue
        ck.expect(same(got[q], x), f'{key}-value', f'{q} loaded as {np.ravel(got[q])[:3]} instead of '
                  f'{np.ravel(x)[:3]}', wit)
        ck.observe('loaded-value')
    extra = set(got) - set(want) - set(allowed)
    ck.expect(not extra, f'{key}-extra', f'values that the file does not hold: {sorted(extra)[:4]}', wit)


POLY_OSC_C = 'xi_r xi_h eul_phi deul_phi y_1 y_2 y_3 y_4'.split()


def poly_file(path, l, m, n):
    k = int(rng.integers(2, 30))
    d = {q: cplx(k) for q in POLY_OSC_C}
    d |= {'lambda': cplx(k), 'Gamma_1': rng.uniform(1, 2, k), 'x': np.sort(rng.random(k)),
          'Omega_rot': rng.random(k)}
    a = {'omega': complex(rng.random(), rng.random()), 'freq': complex(rng.random(), -rng.random()),
         'l_i': complex(l, .5), 'l': l, 'm': m, 'n': k, 'n_g': n, 'n_p': 0, 'n_pg': -n}
    with h5py.File(path, 'w') as h:
        for q, v in d.items():
            h.create_dataset(q, data=v)
        for q, v in a.items():
            h.attrs[q] = void_attr(v) if isinstance(v, complex) else np.array([v], np.int32)[0]
        h.attrs['freq_units'], h.attrs['freq_frame'] = b'NONE', b'INERTIAL'
    return d | a | {'freq_units': b'NONE', 'freq_frame': b'INERTIAL'}


def poly_struct(path):
    k = int(rng.integers(20, 60))
    z = np.linspace(0, 3.0, k)
    d = {'z': z, 'theta': 1 - z ** 2 / 12 * rng.uniform(.5, 1), 'dtheta': -z / 6 * rng.uniform(.5, 1)}
    a = {'n_poly': float(rng.uniform(1, 4)), 'Gamma_1': 5 / 3, 'n': k, 'n_r': 1}
    with h5py.File(path, 'w') as h:
        for q, v in d.items():
            h.create_dataset(q, data=v)
        for q, v in a.items():
            h.attrs[q] = np.array([v], np.int32 if isinstance(v, int) else float)[0]
    return d | a


# ---- MESA profiles
MESA_INT = ('zone', 'conv_mixing_type')
MESA_COL = ('zone mass logT logRho luminosity velocity entropy conv_mixing_type csound mu q radius tau '
            'pressure grada gradT gradr opacity eps_nuc mlt_mixing_length log_D_mix grav x y z h1 he4 '
            'brunt_N2 brunt_N2_structure_term hyeq_lhs gamma_1_adDer pressure_scale_height').split()
MESA_SI = {'gamma_1_adDer': 1e-3, 'mlt_mixing_length': 1e-2, 'pressure': .1, 'grav': 1e-2}
MESA_HEAD = ('num_zones initial_mass initial_z star_age time_step Teff photosphere_L photosphere_r '
             'center_h1 center_eta star_mass_h1 dynamic_time burn_min1').split()


def mesa_num(x, w=40, digits=16):
    if isinstance(x, (int, np.integer)):
        return f'{x:{w}d}'
    s = f'{x:.{digits}E}'
    m, e = s.split('E')
    return f'{m}E{e[0]}{e[1:]:0>3}'.rjust(w)


def mesa_file(path):
    n = int(rng.choice([3, 40, 150, 400]))
    k = int(rng.integers(2, len(MESA_COL)))
    cols = ['zone'] + [str(c) for c in rng.permutation(MESA_COL[1:])[:k]]
    d = {}
    for c in cols:
        if c == 'zone':
            d[c] = np.arange(1, n + 1)
        elif c in MESA_INT:
            d[c] = rng.integers(0, 8, n)
        else:
            v = 10. ** rng.uniform(-30, 30) * rng.uniform(.1, 10, n)
            s = int(rng.integers(4))                 # signs: none, all, random, from some row on
            v = v if s == 0 else -v if s == 1 else v * rng.choice([-1, 1], n) if s == 2 else \
                np.where(np.arange(n) < rng.integers(0, n), v, -v)
            d[c] = np.where(rng.random(n) < .05, 0.0, v) * 1.0
    head = {'model_number': int(rng.integers(1, 99999))}
    head |= {c: (n if c == 'num_zones' else float(10. ** rng.uniform(-30, 12) * rng.choice([-1, 1])))
             for c in rng.permutation(MESA_HEAD)[:int(rng.integers(1, len(MESA_HEAD)))]}
    head = {str(a): b for a, b in head.items()}
    if rng.random() < .5:
        head['MESA_SDK_version'] = 'x86_64-linux-21.4.1'
    sep = pick([' ', ''])                            # MESA writes a blank after each column
    rows = [sep.join(f'{i + 1:40d}' for i in range(len(head))),
            sep.join(q.rjust(40) for q in head),
            sep.join((q if isinstance(q, str) else mesa_num(q)).rjust(40) for q in head.values()), '',
            sep.join(f'{i + 1:40d}' for i in range(len(cols))),
            sep.join(c.rjust(40) for c in cols)]
    rows += [sep.join(mesa_num(d[c][i]) for c in cols) for i in range(n)]
    with open(path, 'w') as fh:
        fh.write('\n'.join(rows) + '\n')
    return d, head


def check_mesa(got, d, head, system, wit):
    si = system.upper() == 'SI'
    for c, v in d.items():
        f = MESA_SI.get(c, 1.0) if si else 1.0
        if not ck.expect(c in got, 'mesa-missing', f'column {c} is not loaded', wit):
            continue
        g = np.asarray(got[c])
        ck.expect(g.shape == v.shape and g.dtype.kind in 'if' and
                  np.all(np.abs(g - v * f) <= (0 if f == 1 else 1e-15) * np.abs(v * f)),
                  'mesa-value', f'column {c}: {int(np.sum(g != v * f)) if g.shape == v.shape else g.shape} '
                  'values differ from those of the file', dict(case=wit, column=c, got=g[:4], want=v[:4]))
        ck.observe('mesa-column')
    for c, v in head.items():
        if ck.expect(c in got, 'mesa-header-missing', f'header value {c} is not loaded', wit):
            g = got[c]
            ok = g == v if isinstance(v, str) else abs(np.longdouble(str(g)) - np.longdouble(v)) <= 4e-16 * abs(v)
            ck.expect(ok, 'mesa-header', f'header value {c} loaded as {g!r} '
                      f'instead of {v!r}', wit)
            ck.observe('mesa-header')
    extra = set(got) - set(d) - set(head)
    ck.expect(not extra, 'mesa-extra', f'values that the file does not hold: {sorted(extra)[:4]}', wit)


# ---------------------------------------------------------------- whole loads
CWD = os.getcwd()
for it in range(ck.n(60, 900)):
    base = os.path.join(TMP, f'd{it}')
    nm = int(rng.choice([1, 2, 3, 3, 3]))
    dirs = {'mesa': pick(['MESA', 'out_mesa_run', 'Mesa']), 'gyre': pick(['GYRE', 'gyre_ad', 'my_Gyre']),
            'pm': pick(['POLYTROPE_MODEL', 'the_polytrope_model']),
            'po': pick(['POLYTROPE_OSCILLATION', 'a_polytrope_oscillation_dir'])}
    P = {q: os.path.join(base, v) for q, v in dirs.items()}
    for p in P.values():
        os.makedirs(p)
    with open(os.path.join(base, 'README_gyre_mesa.txt'), 'w') as fh:
        fh.write('not a directory')
    files = [(*f[:4], ('detail',)) for f in directory()][:9]
    uniq = {f[:4]: f for f in files}
    content, pcontent = {}, {}
    for i, f in enumerate(uniq.values()):
        content[f[:4]] = gyre_file(os.path.join(P['gyre'], mode_name(*f)), *f[:3], ident=i)
        pcontent[f[:4]] = poly_file(os.path.join(P['po'], mode_name(*f)), *f[:3])
    dup = it % 9 == 4
    if dup:
        f = pick(list(uniq.values()))
        gyre_file(os.path.join(P['gyre'], 'copy_' + mode_name(*f)), *f[:3], ident=99)
    mesa = mesa_file(os.path.join(P['mesa'], 'profile_KIC1.dat'))
    with open(os.path.join(P['mesa'], 'profile_KIC1.dat.GYRE'), 'w') as fh:
        fh.write('1\n')
    if it % 5 == 2:
        mesa_file(os.path.join(P['mesa'], 'profile_KIC10.dat' if it % 2 else 'history_KIC1.dat'))
    if it % 11 == 3:
        os.makedirs(os.path.join(P['gyre'], 'l1m+0n+1_detail_g_mode.h5'))     # a directory, not a file
    pstruct = poly_struct(os.path.join(P['pm'], 'polytrope_n_3_0.h5'))
    base_req = [pick(list(uniq)) for _ in range(nm)]
    absent = it % 7 == 5
    if absent:
        k = int(rng.integers(nm))
        l, m, n, g = base_req[k]
        alt = [(l, m, n, not g), (l, m, n + 1, g), (l, -m, n, g), (l + 1, m, n, g), (l, m, n * 10, g)]
        alt = [a for a in alt if a not in uniq]
        base_req[k] = pick(alt) if alt else base_req[k]
    how = ['infer', 'explicit', 'nobase'][it % 3]
    kw = dict(search_l=[r[0] for r in base_req], search_m=[r[1] for r in base_req],
              search_n=[r[2] for r in base_req], mesa_profile_substrings=('profile', 'KIC1'),
              gyre_detail_substring=pick(['detail', ('detail',), ['detail'] * nm, None]),
              polytrope_oscillation_substrings='detail', unit_system=str(pick(['CGS', 'SI', 'si', 'cgs'])))
    if how == 'infer':
        kw['base_dir'] = base
    else:
        kw |= dict(mesa_output_dir=P['mesa'], gyre_output_dir=P['gyre'],
                   polytrope_model_output_dir=P['pm'], polytrope_oscillation_output_dir=P['po'],
                   base_dir=base if how == 'explicit' else None, infer_dir=how == 'explicit')
    g_modes = [r[3] for r in base_req]
    system = kw['unit_system']
    wit = dict(files=sorted(os.listdir(P['gyre'])), mesa=sorted(os.listdir(P['mesa'])), request=base_req,
               how=how, kw={q: str(v) for q, v in kw.items()})
    os.chdir(P['mesa'] if it % 4 == 1 else CWD)
    try:
        with ck.guard('load-raised', witness=wit):
            ml = ModelLoader(**kw)
            # -- modes
            hits = [[c for q, c in content.items() if q == r] for r in base_req]
            amb = dup and any(r == f[:4] for r in base_req)
            bars = dict(progress_bars=True) if it % 4 == 1 else {}
            got = attempt(ml.read_data_files, gyre_detail=True, g_modes=g_modes, **bars)
            if amb or not all(hits):
                ck.expect(isinstance(got, BaseException), 'accepted', 'a request that matches no file, or '
                          'several files, is not rejected', wit)
                ck.observe('request-rejected')
            elif isinstance(got, BaseException):
                ck.violate('refused', f'a request with one file per mode is refused: {got!r}', wit)
            else:
                for r, h, g in zip(base_req, hits, ml.gyre_details):
                    ck.expect(int(g.get('j', -1)) == h[0]['j'], 'other-file', f'mode {r}: data of another '
                              'file', wit)
                    compare(g, gyre_expected(h[0], system), 'gyre', wit)
                ck.expect(len(ml.gyre_details) == nm, 'number', 'number of modes loaded', wit)
                ck.observe('modes-loaded', nm)
            # -- structure
            two = it % 5 == 2 and it % 2
            got = attempt(ml.read_data_files, mesa_profile=True, **bars)
            if two:
                ck.expect(isinstance(got, BaseException), 'mesa-two', 'two profiles match and none is '
                          'rejected', wit)
            elif isinstance(got, BaseException):
                ck.violate('mesa-refused', f'a single matching profile is refused: {got!r}', wit)
            else:
                check_mesa(ml.mesa_profile[0], *mesa, system, wit)
                ck.observe('profile-loaded')
                if it % 3 == 0:                      # asking again gives the same
                    first = {q: np.copy(v) for q, v in ml.mesa_profile[0].items()}
                    ml.read_data_files(mesa_profile=True)
                    ck.expect(len(ml.mesa_profile) == 1 and set(first) == set(ml.mesa_profile[0]) and
                              all(np.array_equal(v, ml.mesa_profile[0][q]) for q, v in first.items()),
                              'again', 'a second load gives something else', wit)
            # -- polytropes
            M, R = ((float(10 ** rng.uniform(32, 36)), float(10 ** rng.uniform(9, 13))) if it % 2 else
                    (3.0 * M_sun.cgs.value, 4.5 * R_sun.cgs.value))
            pk = dict(polytrope_mass=M, polytrope_radius=R) if it % 2 else {}
            got = attempt(ml.read_data_files, polytrope_oscillation=True, polytrope_model=True,
                          g_modes=g_modes, **pk, **bars)
            if not all(hits):
                ck.expect(isinstance(got, BaseException), 'poly-accepted', 'a polytrope request that '
                          'matches no file is not rejected', wit)
            elif isinstance(got, BaseException):
                ck.violate('poly-refused', f'a polytrope request with one file per mode is refused: {got!r}',
                           wit)
            else:
                gv = G.si.value if system.upper() == 'SI' else G.cgs.value
                for r, g in zip(base_req, ml.polytrope_oscillation_models):
                    w = {q: (v['re'] + 1j * v['im'] if getattr(v, 'dtype', None) == VOID else v)
                         for q, v in pcontent[r].items()}
                    compare(g, w | {'G': gv, 'M_star': M, 'R_star': R}, 'poly', wit)
                s = ml.polytrope_model[0]
                for q, v in (pstruct | {'G': gv}).items():
                    ck.expect(q in s and same(s[q], v), 'poly-struct', f'{q} of the polytrope', wit)
                with np.errstate(all='ignore'):
                    ck.close(np.ravel(s['r'])[-1], R, 'poly-radius', 'radius of the polytrope', wit, rtol=1e-9)
                    ck.close(np.ravel(s['mr'])[-1], M, 'poly-mass', 'mass of the polytrope', wit, rtol=1e-9)
                ck.observe('polytropes-loaded', nm)
    finally:
        os.chdir(CWD)
    ck.case('load', (it, how, base_req))
    shutil.rmtree(base)

# ---- directories that cannot be inferred are not replaced by another one
for it in range(ck.n(12, 100)):
    base = os.path.join(TMP, f'e{it}')
    here = os.path.join(base, 'here')
    os.makedirs(here)
    mesa_file(os.path.join(here, 'profile_KIC1.dat'))
    gyre_file(os.path.join(here, 'detail_g_mode_l1m+0n+5.h5'), 1, 0, 5, 1)
    for q in (['mesa_a', 'mesa_b', 'gyre_a', 'gyre_b'] if it % 2 else []):
        os.makedirs(os.path.join(base, q))
        shutil.copy(os.path.join(here, 'profile_KIC1.dat'), os.path.join(base, q))
    os.chdir(here)
    try:
        with ck.guard('infer-raised', witness=it):
            ml = ModelLoader(base_dir=base, search_l=[1], search_m=[0], search_n=[5],
                             mesa_profile_substrings=('profile',))
            for what in ('mesa_profile', 'gyre_detail'):
                got = attempt(ml.read_data_files, **{what: True})
                ck.expect(isinstance(got, BaseException), f'cwd-{what}', 'files of the current directory '
                          'are loaded when the directory is missing or ambiguous', it)
    finally:
        os.chdir(CWD)
    ck.case('no-directory', it)
    shutil.rmtree(base)

# ---- readers on their own: every quantity of the files that the tables name
for cls in (GYREDetailFiles, MESAProfileFiles, PolytropeModelFiles, PolytropeOscillationModelFiles):
    names = cls.attrs()
    for system in ('CGS', 'SI'):
        conv = cls.unit_conversions(unit_system=system)
        tab = MESA_SI if cls is MESAProfileFiles else CSI if cls is GYREDetailFiles else {}
        for q in names:
            f = tab.get(q, 1.0) if system == 'SI' else 1.0
            ck.expect(q in conv and abs(conv[q](7.0) - 7.0 * f) <= 1e-14, 'table', f'{cls.__name__}: unit '
                      f'conversion of {q} to {system}', f)
            ck.observe('conversion')
        ck.case('table', (cls.__name__, system))

if not os.path.abspath(TMP).startswith(('/tmp/', tempfile.gettempdir())):
    raise RuntimeError(TMP)
shutil.rmtree(TMP)
for kind, least in (('name-selection', 100), ('load', 20), ('loaded-value', 1000), ('mesa-column', 100),
                    ('request-rejected', 3), ('verdict-selected', 50)):
    ck.need(kind, least)
ck.finish()
