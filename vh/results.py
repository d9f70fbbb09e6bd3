"""Generated result files of the solver and the analysis quantities their numbers stand for (oracle of
C27 and C31)."""
import os

import h5py
import numpy as np

PATHS = dict(
    surfs='coupling/stationary_three_mode/surface_flux_variations',
    checks='checks/pre_checks', driv_damp_rates='linear_driving/driving_rates',
    theoretical_amps='coupling/stationary_three_mode/equilibrium_theoretical_amplitudes',
    thresh_amp='coupling/stationary_three_mode/critical_parent_amplitudes',
    rad_ord='quantum_numbers/n', corot_mode_omegas='mode_frequency_info/corot_mode_omegas',
    corot_mode_freqs='mode_frequency_info/corot_mode_freqs',
    inert_mode_omegas='mode_frequency_info/inert_mode_omegas',
    inert_mode_freqs='mode_frequency_info/inert_mode_freqs',
    inert_dimless_mode_freqs='mode_frequency_info/inert_dimless_mode_omegas',
    kappa='coupling/generic/|kappa|', kappa_norm='coupling/generic/|kappa_norm|',
    stationary_relative_luminosity_phase='coupling/stationary_three_mode/'
                                         'stationary_relative_luminosity_phases')
DAY = 86400.0


# ---- result files
def result(rng, n, m, rot, wide, dense):
    lo = 5
    if dense:
        ro = rng.integers(lo, lo + 4, (n, 3))
        ro[:, 1:] = np.sort(rng.integers(lo, lo + 9, (n, 2)), axis=1)[:, ::-1]
    else:
        ro = np.stack([rng.permutation(400)[:n] + 5 for _ in range(3)], 1)
    ro = ro * rng.choice([-1, 1])
    w = 10.0 ** rng.uniform(-5.3, -4.3, (n, 3)) * 2 * np.pi
    near = rng.random(n) < .7
    w[near, 0] = (w[near, 1] + w[near, 2]) * (1 + rng.choice([1e-4, .01, .3]) *
                                             rng.standard_normal(near.sum()))
    if rng.random() < .4:
        # frequencies of either sign
        w[rng.random((n, 3)) < .1] *= -1
    inert = w + np.asarray(m) * rot
    g = 10.0 ** rng.uniform(-9, -6, (n, 3)) * np.array([1, -1, -1])
    par = rng.random(n) < .7
    direct = ~par & (rng.random(n) < .6)
    ch = np.column_stack([par, direct, rng.random(n) < .9,
                          (rng.random((n, 3)) < .85)]).astype(bool)
    th = 10.0 ** rng.uniform(-6, -2, (n, 3))
    th[rng.random(n) < .05] = np.nan
    th[rng.random(n) < .03, 0] = 0.0
    surfs = th * 10.0 ** rng.uniform(-4, 1, (n, 3))
    zero = rng.random((n, 3)) < .03
    surfs[zero] = rng.choice([0.0, np.nan], zero.sum())
    cplx = rng.random() < .3
    kap = 10.0 ** rng.uniform(-4, 2, n) * rng.choice([-1, 1], n)
    d = dict(surfs=surfs, checks=ch, driv_damp_rates=g, theoretical_amps=th,
             thresh_amp=th[:, 0] * 10.0 ** rng.uniform(-3, 2, n), rad_ord=ro, corot_mode_omegas=w,
             corot_mode_freqs=w / 2 / np.pi, inert_mode_omegas=inert,
             inert_mode_freqs=inert / 2 / np.pi, inert_dimless_mode_freqs=inert * 3.3e3,
             kappa=kap * (1 + .5j) if cplx else kap, kappa_norm=kap / 7,
             stationary_relative_luminosity_phase=rng.uniform(-np.pi, np.pi, n))
    if wide:
        d['inert_mode_freqs'] = d['inert_mode_freqs'] - wide * rng.random((n, 3))
    return d


def write(path, d, m):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, 'w') as f:
        for k, p in PATHS.items():
            f[p] = d[k]
        f['quantum_numbers'].attrs['m'] = np.asarray(m)
        f['quantum_numbers'].attrs['k'] = np.asarray([0, 0, 0])
        f['quantum_numbers'].attrs['l'] = np.abs(np.asarray(m))
        f['noise/other'] = np.array([1., 2., 3.])


def cat(ds):
    keys = [k for k in ds[0] if k in PATHS]
    out = {k: np.concatenate([d[k] for d in ds]) for k in keys}
    out['rot'] = np.concatenate([np.full(len(d['rad_ord']), d['rot']) for d in ds])
    return out


# ---- what the quantities are
def derived(d):
    o, n = {}, len(d['rad_ord'])
    w, wi, f, fi, g = (d[k] for k in ('corot_mode_omegas', 'inert_mode_omegas', 'corot_mode_freqs',
                                      'inert_mode_freqs', 'driv_damp_rates'))

    def both(name, x):
        o[name + '_muHz'], o[name + '_cpd'] = x * 1e6, x * DAY
    for nm, x in (('corot_mode_omegas', w), ('corot_mode_freqs', f), ('inert_mode_omegas', wi),
                  ('inert_mode_freqs', fi)):
        both(nm + '_p', x[:, 0])
        both(nm + '_d', x[:, 1:])
    dw = w[:, 0] - w[:, 1] - w[:, 2]
    o['linear_omega_diff'] = dw
    both('linear_omega_diff', dw)
    o['linear_omega_diff_to_min_omega'] = dw / np.min(np.abs(w), axis=1)
    o['rotation_freqs'] = d['rot']
    both('rotation_freqs', d['rot'])
    o['spin_parameters'] = 2 * d['rot'][:, None] / w
    thr = np.full(n, np.nan)
    r1, r2, vb = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    for i in range(n):
        s, t, par, drc = d['surfs'][i], d['theoretical_amps'][i, 0], *d['checks'][i, :2]
        if par and t == t and t != 0:
            thr[i] = d['thresh_amp'][i] * s[0] / t * 1e6
        if par and s[0] == s[0] and s[0] != 0:
            r1[i], r2[i] = s[1] / s[0], s[2] / s[0]
        elif drc:
            r1[i] = s[0] / s[1] if s[1] != 0 else np.nan
            r2[i] = s[0] / s[2] if s[2] != 0 else np.nan
        if (par or drc) and s[1] * s[2] != 0:
            vb[i] = s[0] / (s[1] * s[2])
    o['thresh_surf_ppm'] = thr
    o['surf_ratio_daughter_parent_OG_SHAPE'] = np.stack([r1, r2], 1)
    o['surf_ratio_daughter_parent'] = np.concatenate([r1, r2])
    o['surf_ratio_vb_21'] = vb
    o['p_driv_rates'], o['d_damp_rates'] = g[:, 0], g[:, 1:]
    both('p_driv_rates', g[:, 0])
    both('d_damp_rates', g[:, 1:])
    o['abs_kappa'], o['abs_kappa_norm'] = np.abs(d['kappa']), np.abs(d['kappa_norm'])
    gs = g[:, 0] + g[:, 1] + g[:, 2]
    sh = np.stack([-dw * g[:, 0] / gs, dw * g[:, 1] / gs, dw * g[:, 2] / gs], 1)
    o['freq_shift_p'], o['freq_shift_d'] = sh[:, 0], sh[:, 1:]
    both('freq_shift_p', sh[:, 0])
    both('freq_shift_d', sh[:, 1:])
    o['freq_shift_p_to_omega'], o['freq_shift_d_to_omega'] = sh[:, 0] / wi[:, 0], sh[:, 1:] / wi[:, 1:]
    return o, dw, g, gs, sh


def analysed(d):
    o, dw, g, gs, sh = derived(d)
    wi = d['inert_mode_omegas']
    o['p_quality_factors'] = d['corot_mode_omegas'][:, 0] / g[:, 0]
    o['gamma_sum_cpd'] = o['gamma_sum'] = gs * DAY
    o['nonlinear frequency shift/omega inert'] = sh / wi
    nl = (wi + sh) * DAY
    o['nonlinear omegas (c/d)'] = nl
    o['nonlinear parent omega (c/d)'], o['nonlinear daughter omega (c/d)'] = nl[:, 0], nl[:, 1:]
    o['nonlinear phase'] = d['stationary_relative_luminosity_phase']
    o['q'], o['q1'], o['q3'] = dw / gs, dw / g[:, 0], dw / g[:, 2]
    o['theta2'], o['theta3'], o['theta23'] = -g[:, 1] / g[:, 0], -g[:, 2] / g[:, 0], g[:, 1] / g[:, 2]
    return o


# ---- a set of models
def make_models(rng, root, wide=None, nmod=None):
    nmod = nmod or int(rng.integers(1, 5))
    style = str(rng.choice(['single-list', 'lists', 'mixed', 'one']))
    if style == 'one':
        nmod = 1
    names_rng = np.random.default_rng(rng.integers(2 ** 31))
    standard = bool(names_rng.random() < .4)
    masses = [names_rng.choice([4, 4.5, 12, 3.25]).item() for _ in range(nmod)]
    masses = [int(q) if q == int(q) else q for q in masses]
    xcs = [float(names_rng.choice([.09, .7, .001, .5])) for _ in range(nmod)]
    pairs = names_rng.integers(1, 60, (nmod, 3, 2)).tolist()
    base, spec, suf, ks, ms, models = [], [], [], [], [], []
    for i in range(nmod):
        m1 = [int(x) for x in rng.integers(-2, 3, 2)]
        m = [m1[0] + m1[1], *m1]
        if not any(m):
            m = [2, 1, 1]
        rot = float(rng.choice([0.0, 1.0, 1.0]) * 10.0 ** rng.uniform(-7, -5))
        k = [int(x) for x in rng.integers(-1, 3, 3)]
        as_list = style == 'lists' or (style == 'mixed' and rng.random() < .5)
        nf = int(rng.integers(1, 4)) if as_list else 1
        names = [f'model_{i}_{j}' for j in range(nf)]
        long = ''
        if standard:
            t = pairs[i]
            long = (f'_M{masses[i]}_Xc{str(xcs[i]).replace(".", "_")}_d{t[0][0]}_{t[0][1]}_d{t[1][0]}_{t[1][1]}'
                    f'_p{t[2][0]}_{t[2][1]}')
        spc = [str(rng.choice(['', 'OP', 'a_b'])) for _ in range(nf)]
        files, ds = [], []
        for a, s in zip(names, spc):
            d = result(rng, int(rng.choice([1, 2, 7, 30, 60])), m, rot, wide, rng.random() < .5)
            d['rot'] = rot
            fn = (a + (f'_{s}' if s else '') + long + f'_k_{k[0]}_{k[1]}_{k[2]}_m_{m[0]}_{m[1]}_{m[2]}.h5')
            write(os.path.join(root, 'out', 'sub', fn), d, m)
            ds.append(d)
        base.append(names if as_list else names[0])
        spec.append(spc if as_list else spc[0])
        suf.append(['h5'] * nf if as_list else 'h5')
        ks.append(k)
        ms.append(m)
        models.append(ds)
    load = dict(nr_files=nmod, base_dir=os.path.join(root, 'out'), output_dir='sub',
                use_standard_format=standard, base_file_names=base, specification_names=spec,
                meridional_degrees=ks, azimuthal_orders=ms, file_suffix=suf,
                masses=masses, Xcs=xcs, triple_pairs=pairs)
    if all(isinstance(b, str) for b in base):        # a plain list of files is one model
        want = [cat([d for ds in models for d in ds])]
    else:
        want = [cat(ds) for ds in models]
    return load, want, style
