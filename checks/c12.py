"""C12: frequencies, spins, detunings and their unit systems."""
import types

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C12', 'one case = one (modes, frames, input units per mode, requested unit) setup of '
           'the frequency handler, all derived quantities recomputed in rad/s')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.frequency_handling.enumeration_files import EnumGYREFreqConv as EC  # noqa: E402

rng = ck.rng()
PI2 = 2 * np.pi
TO_RPS = {b'HZ': PI2, b'UHZ': PI2 * 1e-6, b'RAD_PER_SEC': 1.0, b'CYC_PER_DAY': PI2 / 86400.0}
REQ = {'HZ': b'HZ', 'UHZ': b'UHZ', 'RAD_PER_SEC': b'RAD_PER_SEC', 'CYC_PER_DAY': b'CYC_PER_DAY',
       'CPD': b'CYC_PER_DAY', 'hz': b'HZ', 'rad_per_sec': b'RAD_PER_SEC', 'cpd': b'CYC_PER_DAY'}


def setup():
    n = int(rng.choice([3, 3, 3, 1, 2, 4, 5]))
    G, M, R = 6.674e-8, 10 ** rng.uniform(33, 35), 10 ** rng.uniform(10.8, 12)
    if rng.random() < 0.3:
        G = M = R = 1.0
    w0 = np.sqrt(G * M / R ** 3)
    rot = float(w0 * rng.choice([rng.uniform(0.01, 0.6), 1e-3]))
    rot_key = rng.random() < 0.5
    m = rng.integers(-3, 4, size=n)
    w = w0 * rng.uniform(0.05, 6, size=n)                 # adiabatic, rad/s
    wn = w * rng.uniform(0.98, 1.02, size=n)              # nonadiabatic
    g = wn * 10 ** rng.uniform(-8, -3, size=n) * rng.choice([-1, 1], size=n)
    frames = rng.choice([b'INERTIAL', b'COROT_I', b'COROT_O'], size=n)
    frames_n = frames if rng.random() < .5 else rng.choice([b'INERTIAL', b'COROT_I'], size=n)
    units = rng.choice([b'HZ', b'UHZ', b'RAD_PER_SEC', b'CYC_PER_DAY', b'NONE'], size=n)
    units_n = units if rng.random() < .5 else rng.choice(units, size=n)
    if rng.random() < .3:
        units_n = rng.choice([b'HZ', b'UHZ', b'RAD_PER_SEC', b'CYC_PER_DAY', b'NONE'], size=n)

    def dicts(vals, fr, un):
        out = []
        for i in range(n):
            fac = w0 if un[i] == b'NONE' else TO_RPS[bytes(un[i])]
            d = {'freq': np.array([vals[i] / fac], dtype=np.complex128), 'freq_units': bytes(un[i]),
                 'freq_frame': bytes(fr[i]), 'm': int(m[i]), 'G': G, 'M_star': M, 'R_star': R}
            # only the last value is that of the surface
            prof = np.append(rng.uniform(0.3, 2, 3), 1) * rot
            d['Omega_rot' if not rot_key else 'Omega_rot_dim'] = prof / (1 if rot_key else w0)
            out.append(d)
        return out

    return dict(n=n, w0=w0, rot=rot, m=m, w=w, wn=wn, g=g, frames=frames, frames_n=frames_n,
                units=units, units_n=units_n, ad=dicts(w, frames, units),
                nad=dicts(wn + 1j * g, frames_n, units_n))


def one():
    s = setup()
    req = str(rng.choice(list(REQ)))
    fac = TO_RPS[REQ[req]]
    ang = req.upper() == 'RAD_PER_SEC'
    cyc = fac / (1.0 if ang else PI2)                # Hz-like unit: value * cyc = Hz
    n, m, rot = s['n'], s['m'], s['rot']
    wit = {k: s[k] for k in ('n', 'w0', 'rot', 'm', 'w', 'wn', 'g', 'frames', 'frames_n', 'units',
                             'units_n')} | {'requested': req}
    ck.case('setup', wit)
    u = 'angular' if ang else 'cyclic'
    with ck.guard(f'raised-{req}', witness=wit):
        h = FH(*s['ad'], my_freq_units=req)

        def expected(w, frames):
            inert = np.where(frames == b'INERTIAL', w, w + m * rot)
            corot = np.where(frames == b'INERTIAL', w - m * rot, w)
            return inert, corot

        tol = dict(rtol=1e-12)

        def eq(got, want, name, sc=None):
            want = np.asarray(want)
            ck.observe('value')
            ck.close(got, want, f'{name}-{u}', f'{name} (requested {req})', wit, rtol=2e-12,
                     scale=np.max(np.abs(want)) if sc is None else sc)

        def frequencies(sfx, inert, corot, sc):
            for fr, w in (('inert', inert), ('corot', corot)):
                # omegas are angular in the requested time unit, freqs cyclic
                eq(getattr(h, f'{fr}_mode_omegas{sfx}'), w / cyc if not ang else w,
                   f'{fr}-omega{sfx}', sc / cyc)
                eq(getattr(h, f'{fr}_mode_freqs{sfx}'), w / PI2 / cyc if not ang else w / PI2,
                   f'{fr}-freq{sfx}', sc / cyc / PI2)
                eq(getattr(h, f'dimless_{fr}_omegas{sfx}'), w / s['w0'], f'dimless-{fr}-omega{sfx}',
                   sc / s['w0'])
                eq(getattr(h, f'dimless_{fr}_freqs{sfx}'), w / s['w0'] / PI2,
                   f'dimless-{fr}-freq{sfx}', sc / s['w0'])
            for i in range(n):
                for a, b in (('f', 'freqs'), ('o', 'omegas')):
                    eq(getattr(h, f'get_inert_corot_{a}{sfx}')(i + 1),
                       [[getattr(h, f'corot_mode_{b}{sfx}')[i]], [getattr(h, f'inert_mode_{b}{sfx}')[i]]],
                       f'get-inert-corot-{a}{sfx}')
                for b in ('freqs', 'omegas'):
                    eq(getattr(h, f'get_dimless_{b}{sfx}')(i + 1),
                       [[getattr(h, f'dimless_corot_{b}{sfx}')[i]],
                        [getattr(h, f'dimless_inert_{b}{sfx}')[i]]], f'get-dimless-{b}{sfx}')

        inert, corot = expected(s['w'], s['frames'])
        sc = np.max(np.abs(inert) + np.abs(corot))
        frequencies('', inert, corot, sc)
        unit = 1.0 if ang else cyc
        eq(h.surf_rot_freq, rot / fac, 'rot')
        eq(h.surf_rot_angular_freq, rot / unit, 'rot-angular')
        eq(h.surf_rot_angular_freq_rps, rot, 'rot-rps')
        eq(h.angular_conv_factor_from_rps, 1 / unit, 'conv-factor')
        safe = np.abs(corot) > 1e-3 * sc
        eq(np.asarray(h.spin_factors)[safe], (2 * rot / corot)[safe], 'spin')
        det = (corot[0] - corot[1:].sum()) / unit
        eq(h.detuning, det, 'detuning', n * sc / unit)
        eq(h.get_detunings(), [[det], [det]], 'get-detunings', n * sc / unit)
        ck.expect(h.nr_of_modes == n and h.angular == ang and h.requested_units == req, 'meta',
                  'mode count or units', wit)
        names = [a + '_mode_' + b for a in ('inert', 'corot') for b in ('freqs', 'omegas')] + \
            ['spin_factors', 'detuning', 'surf_rot_freq'] + \
            [f'dimless_{a}_{b}' for a in ('inert', 'corot') for b in ('freqs', 'omegas')]
        before = {k: np.array(getattr(h, k)) for k in names}

        # nonadiabatic information
        h.set_mode_nonadiabatic_info(*s['nad'])
        for k in names:
            ck.expect(np.array_equal(before[k], getattr(h, k)), 'adiabatic-unchanged',
                      f'{k} changes when nonadiabatic data arrive', wit)
        inertn, corotn = expected(s['wn'], s['frames_n'])
        scn = np.max(np.abs(inertn) + np.abs(corotn))
        frequencies('_nad', inertn, corotn, scn)
        g = s['g']
        ck.close(h.driving_rates, g / unit, f'driving-{u}', f'driving rates (requested {req})', wit,
                 scale=np.abs(g / unit), rtol=1e-9)
        eq(h.gamma_sum, g.sum() / unit, 'gamma-sum', np.abs(g).sum() / unit * 1e3)
        ck.close(h.quality_factors, corot / g, f'quality-{u}', 'quality factors', wit, rtol=1e-9,
                 scale=sc / np.abs(g))
        ck.close(h.quality_factors_nad, corotn / g, f'quality-nad-{u}', 'quality factors', wit,
                 rtol=1e-9, scale=scn / np.abs(g))
        for sfx in ('', '_nad'):
            qf = getattr(h, 'quality_factors' + sfx)
            prod = [qf[i] * qf[j] for i in range(n) for j in range(i)]
            ck.close(getattr(h, 'quality_factor_products' + sfx), np.array(prod),
                     f'quality-products{sfx}', 'products of quality factors', wit,
                     scale=np.abs(prod) if prod else 1.0)
        detn = (corotn[0] - corotn[1:].sum()) / unit
        eq(h.detuning_nad, detn, 'detuning-nad', n * scn / unit)
        eq(h.get_detunings_nad(), [[detn], [detn]], 'get-detunings-nad', n * scn / unit)
        gs = g.sum() / unit
        if abs(gs) > 1e-3 * np.abs(g).sum() / unit:
            for sfx, d, x in (('', det, sc), ('_nad', detn, scn)):
                ck.close(getattr(h, 'q_factor' + sfx), d / gs, f'q{sfx}', 'q factor', wit,
                         rtol=1e-8, scale=n * x / unit / abs(gs))
                ck.close(getattr(h, 'q1_factor' + sfx), d / (g[0] / unit), f'q1{sfx}', 'q1 factor',
                         wit, rtol=1e-8, scale=n * x / abs(g[0]))
        # same modes through another unit: dimensionless values and ratios do not change
        h2 = FH(*s['ad'], my_freq_units=str(rng.choice(list(REQ))))
        for k in ('spin_factors', 'dimless_inert_omegas', 'dimless_corot_freqs'):
            ck.close(getattr(h2, k)[safe], getattr(h, k)[safe], 'unit-independent',
                     f'{k} depends on the requested unit', wit, rtol=1e-9)
        ck.raises(lambda: h.set_mode_nonadiabatic_info(*s['nad'][:-1]), 'length',
                  'nonadiabatic data of the wrong number of modes accepted', wit)


for _ in range(ck.n(400, 5000)):
    one()

# conversions there and back, and through every third unit
units = {'HZ': b'HZ', 'UHZ': b'UHZ', 'RAD_PER_SEC': b'RAD_PER_SEC', 'CYC_PER_DAY': b'CYC_PER_DAY'}
for _ in range(ck.n(20, 200)):
    v = float(10 ** rng.uniform(-8, 8) * rng.choice([-1, 1]))
    for a, ab in units.items():
        for b, bb in units.items():
            with ck.guard(f'convert-{a}-{b}'):
                ck.case('conversion', (v, a, b))
                x = EC.factor_from_str(ab, b)(v)
                ck.close(x, v * TO_RPS[ab] / TO_RPS[bb], f'convert-{a}-{b}', f'{a} to {b}', v, rtol=1e-13)
                ck.close(EC.factor_from_str(bb, a)(x), v, f'convert-{a}-{b}', f'{a} to {b} and back',
                         v, rtol=1e-13)
        ck.close(EC.factor_from_str(ab, 'CPD')(v), v * TO_RPS[ab] / TO_RPS[b'CYC_PER_DAY'],
                 f'convert-{a}-CPD', 'conversion to cpd', v, rtol=1e-13)
        # the same value as an attribute of an object, in Hz
        f = complex(v, v / 3)
        for u in (ab, a, a.lower()):
            o = types.SimpleNamespace(_freq_units_mode_2=u, _freq_mode_2=np.array([1.0, f]))
            with ck.guard('object', witness=(f, u)):
                k = TO_RPS[ab] / TO_RPS[b'HZ']
                got = EC.factor_from_object(o, '_freq', 2, my_index=1, use_complex=True)
                ck.close(got, f * k, 'object', 'frequency of an object in Hz', (f, u), rtol=1e-13)
                ck.close(EC.factor_from_object(o, '_freq', 2), np.array([1.0, v]) * k, 'object-real',
                         'real frequencies of an object in Hz', (f, u), rtol=1e-13)
                ck.observe('object')
ck.finish()
