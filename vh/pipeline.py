"""Directory trees with everything a run of the solver needs: oscillation files, stellar model,
inlist. Values come from synthetic stars (vh.star), so what each file holds is known."""
import os

import h5py
import numpy as np

from vh import inlist

VOID = np.dtype([('re', '<f8'), ('im', '<f8')])
CPLX = ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_L', 'y_1', 'y_2', 'y_3', 'y_4', 'lambda')
REAL = ('V_2', 'As', 'U', 'c_1', 'Gamma_1', 'Omega_rot', 'M_r', 'P', 'rho', 'T', 'x')
UNIT = {b'RAD_PER_SEC': 1.0, b'HZ': 1 / (2 * np.pi), b'UHZ': 1e6 / (2 * np.pi),
        b'CYC_PER_DAY': 86400 / (2 * np.pi)}


def void(z):
    z = np.asarray(z, complex)
    v = np.empty(z.shape, VOID)
    v['re'], v['im'] = z.real, z.imag
    return v


def write_gyre(path, d, extra=None):
    """GYRE detail file of a mode dictionary (frequency in rad/s, converted to freq_units)."""
    n = len(d['x'])
    with h5py.File(path, 'w') as f:
        for k in CPLX:
            a = np.asarray(d[k])
            f.create_dataset(k, data=void(np.resize(a, n) if k == 'lambda' else a))
        for k in ('c_lum', 'c_rad'):
            f.create_dataset(k, data=np.ones(n))
        for k in REAL:
            f.create_dataset(k, data=np.real(d[k]).astype(float))
        for k in ('l', 'm', 'n_pg', 'n_p', 'n_g'):
            f.attrs[k] = np.int32(d[k])
        f.attrs['n'] = np.int32(n)
        f.attrs['j'] = np.int32(1)
        f.attrs['freq_units'] = np.bytes_(d['freq_units'])     # fixed length, like GYRE
        f.attrs['freq_frame'] = np.bytes_(d['freq_frame'])
        fr = complex(np.ravel(d['freq'])[0]) * UNIT[d['freq_units']]
        for k, v in (('freq', fr), ('omega', complex(np.ravel(d['omega'])[0])), ('l_i', complex(d['l_i']))):
            f.attrs[k] = void(v)[()]
        for k in ('M_star', 'R_star', 'L_star'):
            f.attrs[k] = float(d[k])


def write_mesa(path, prof):
    cols = [k for k in prof if isinstance(prof[k], np.ndarray)]
    n = len(prof[cols[0]])
    w = 30
    head = {'num_zones': n, 'star_age': 1e7}
    rows = [' '.join(f'{i + 1:{w}d}' for i in range(len(head))), ' '.join(k.rjust(w) for k in head),
            ' '.join(f'{v:{w}.16E}' if isinstance(v, float) else f'{v:{w}d}' for v in head.values()), '',
            ' '.join(f'{i + 1:{w}d}' for i in range(len(cols) + 1)),
            ' '.join(k.rjust(w) for k in ['zone', *cols])]
    for i in range(n):
        rows.append(' '.join([f'{i + 1:{w}d}', *(f'{prof[k][i]:{w}.16E}' for k in cols)]))
    with open(path, 'w') as f:
        f.write('\n'.join(rows) + '\n')


def write_poly_mode(path, d):
    n = len(d['x'])
    with h5py.File(path, 'w') as f:
        for k in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'y_1', 'y_2', 'y_3', 'y_4', 'lambda'):
            a = np.asarray(d[k])
            f.create_dataset(k, data=void(np.resize(a, n) if k == 'lambda' else a))
        for k in ('Gamma_1', 'x', 'Omega_rot', 'V_2', 'As', 'U', 'c_1'):
            f.create_dataset(k, data=np.real(d[k]).astype(float))
        for k in ('l', 'm', 'n_pg', 'n_p', 'n_g'):
            f.attrs[k] = np.int32(d[k])
        f.attrs['n'] = np.int32(n)
        f.attrs['freq_units'], f.attrs['freq_frame'] = np.bytes_(b'NONE'), np.bytes_(d['freq_frame'])
        for k in ('omega', 'freq', 'l_i'):
            f.attrs[k] = void(complex(np.ravel(d[k])[0]))[()]


def write_poly_struct(path, P):
    with h5py.File(path, 'w') as f:
        for k, v in (('z', P.z), ('theta', P.theta), ('dtheta', P.dtheta)):
            f.create_dataset(k, data=v)
        f.attrs['n_poly'], f.attrs['Gamma_1'] = float(P.n), float(P.gamma)
        f.attrs['n'], f.attrs['n_r'] = np.int32(len(P.z)), np.int32(1)


def mode_name(d, n, tag='detail'):
    kind = 'g_mode' if d['n_pg'] < 0 else 'p_mode'
    return f'{tag}_{kind}_l{d["l"]}_m{d["m"]:+d}_n+{n}.h5'


class Tree:
    """root/AESolver with inlists/inlist.toml, run_scripts/, and the data directories beside it."""

    def __init__(self, root):
        self.root, self.repo = root, os.path.join(root, 'AESolver')
        self.inlists = os.path.join(self.repo, 'inlists')
        self.dirs = {k: os.path.join(root, 'data', v) + '/' for k, v in
                     (('mesa_base', 'MESA'), ('mesa', 'MESA/profiles'), ('gyre', 'GYRE'),
                      ('ad', 'GYRE/ad'), ('nad', 'GYRE/nad'), ('pbase', 'poly'), ('pstruct', 'poly/POLYTROPE_MODEL'),
                      ('pmode', 'poly/POLYTROPE_OSCILLATION'), ('out', 'out'))}
        for d in (self.inlists, os.path.join(self.repo, 'run_scripts'), *self.dirs.values()):
            os.makedirs(d, exist_ok=True)
        t = self.inlist = inlist.template()
        p = inlist.put
        D = self.dirs
        for k, v in (('rotation.rotating_formalism', True), ('rotation.rot_percent', 20),
                     ('computation.integration_method', 'trapz'), ('computation.angular.cheby_mul', 4),
                     ('computation.angular.blow_up_fac', 1e5), ('computation.compute_grid_models', True),
                     ('coupling_coefficient.symbolic_profiles', True),
                     ('coupling_coefficient.brunt_def_profiles', True), ('coupling_coefficient.adiabatic', True),
                     ('GYRE_selection.gyre_dir_path', D['gyre']), ('GYRE_selection.specifier.adiabatic', 'ad'),
                     ('GYRE_selection.specifier.nonadiabatic', 'nad'), ('POLY_selection.mode_path', D['pmode']),
                     ('POLY_selection.specifier.modes', 'x'), ('saving.solve.base_dir', D['out'].rstrip('/')),
                     ('saving.solve.save_dir', ''), ('saving.solve.extra_specifier', ''),
                     ('saving.solve.save_format', 'hdf5')):
            p(t, k, v)
        for k, v in (('MESA.default.base_dir', D['mesa_base']), ('MESA.default.output_dir', D['mesa']),
                     ('MESA.selection.substrings', ['M8', 'prof']), ('MESA.selection.substrings_to_tuple', True),
                     ('MESA.selection.suffix', 'dat'), ('GYRE.default.base_dir', D['gyre']),
                     ('GYRE.default.output_dir', D['gyre']), ('GYRE.selection.detail_substrings', ['detail', 'M8']),
                     ('GYRE.selection.detail_substrings_to_tuple', True),
                     ('GYRE.selection.summary_substring', 'summary'),
                     ('POLY.structure.default.base_dir', D['pbase']),
                     ('POLY.structure.default.output_dir', D['pstruct']),
                     ('POLY.structure.selection.substrings', ['poly', 'n_3']),
                     ('POLY.structure.selection.substrings_to_tuple', True),
                     ('POLY.structure.selection.suffix', 'h5'), ('POLY.modes.default.base_dir', D['pbase']),
                     ('POLY.modes.default.output_dir', D['pmode']),
                     ('POLY.modes.selection.detail_substrings', ['detail', 'M8']),
                     ('POLY.modes.selection.detail_substrings_to_tuple', True),
                     ('POLY.modes.selection.summary_substring', 'summary')):
            p(t, 'information_folders.' + k, v)

    def set(self, path, value):
        inlist.put(self.inlist, path, value)

    def write_inlist(self, name='inlist', rng=None):
        with open(os.path.join(self.inlists, name + '.toml'), 'w') as f:
            f.write(inlist.render(self.inlist, rng))

    def argv(self, save, name=None):
        return [os.path.join(self.repo, 'run_scripts', 'solve_quadratic.py'),
                *([name, 'toml', 'inlists'] if name else []), '--save_file_name', save]

    def files(self):
        return sorted(os.path.join(r, f) for r, _, fs in os.walk(self.dirs['out']) for f in fs)
