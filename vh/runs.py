"""Whole runs of the solver on generated trees (after build.setup of the packages it imports)."""
import contextlib
import io
import logging
import os
import sys

import h5py
from astropy.constants import G as G_
from aerunners import perform_complete_solve_run, solve_quadratic
from hough_function import HF

from vh.star import Polytrope

G = G_.cgs.value
UNITS = (b'RAD_PER_SEC', b'HZ', b'UHZ', b'CYC_PER_DAY')
TRIADS = [((2, 2), (1, 1), (1, 1)), ((2, 0), (1, 1), (1, -1)), ((2, 1), (1, 0), (1, 1)), ((1, 1), (2, 2), (1, -1)),
          ((2, -2), (1, -1), (1, -1)), ((3, 1), (2, 2), (1, -1)),
          ((3, 2), (2, 1), (1, 1))]
BLACK = io.StringIO()


def make_star(rng, **kw):
    a = dict(n=float(rng.uniform(1.5, 3.5)), gamma=float(rng.choice([5 / 3, 1.6, 1.75])),
             cut=float(rng.uniform(.9, .98)), npts=int(rng.integers(60, 120)),
             M=float(rng.uniform(4e33, 2e34)), R=float(rng.uniform(1e11, 5e11)), G=G)
    return Polytrope(**(a | kw))


def lamb(P, l, m, w, rot):
    h = HF(nu=2 * rot / (w * P.w0), l=l, m=m, npts=200, definition='lee_saio_equivalent')
    h()
    return -h._eigenvalue


def draw_modes(rng, P, lms, ranges, rot, per_mode, mul=(.15, 1, 1)):
    """{(place, n): (w, adiabatic dictionary, nonadiabatic dictionary)}; modes that two places share
    (same l, m, n) are the same. Frequencies lie near a resonance."""
    w1 = rng.uniform(2.4, 3.6)
    half = rng.uniform(.42, .58)
    by = {}
    out = {}
    for place, ((l, m), (lo, hi)) in enumerate(zip(lms, ranges)):
        for n in range(lo, hi + 1):
            if (l, m, n) not in by:
                base = w1 * (1, half, 1 - half)[place]
                if lms[1] == lms[2] and place:
                    base = w1 / 2
                w = base * (1 + rng.normal() * 1e-4)
                g = (1, -1, -1)[place] * P.w0 * 10 ** rng.uniform(-5, -3.5)
                g *= mul[place]
                if rng.random() < .07:
                    g = -g
                lam = lamb(P, l, m, w, rot)
                y = P.eigen(l, lam, w)
                units = UNITS[int(rng.integers(4))] if per_mode else UNITS[0]
                frame = (b'INERTIAL', b'COROT_I')[int(rng.integers(2))]
                amp = float(rng.uniform(.3, 3))
                ad = P.mode_dict(l, m, lam, w, y * amp, rot, n_pg=-n, units=units, frame=frame, imag=.1)
                dw = w * rng.normal() * 1e-5
                nad = P.mode_dict(l, m, lam, w + dw, y * amp, rot, n_pg=-n, nad=g, units=units,
                                  frame=frame, imag=.1)
                for q in ('xi_r', 'xi_h', 'y_1', 'y_2'):
                    nad[q] = nad[q] * (1.1 + .2j)
                for d, b in ((ad, .4), (nad, 1.)):
                    d['lag_L'] = d['lag_L'] * b * (rng.normal() + 1j * rng.normal())
                by[l, m, n] = (w, w + dw, g, ad, nad)
            out[place, n] = by[l, m, n]
    return out, by


def solve(T, name, save, solver=None):
    old = sys.argv, os.getcwd(), getattr(solve_quadratic, 'QuadraticAEGridSolver', None)
    sys.argv = T.argv(save, name)
    if solver is not None:
        solve_quadratic.QuadraticAEGridSolver = solver
    try:
        with contextlib.redirect_stdout(BLACK), contextlib.redirect_stderr(BLACK):
            perform_complete_solve_run(logging.getLogger())
    finally:
        sys.argv = old[0]
        solve_quadratic.QuadraticAEGridSolver = old[2]
        os.chdir(old[1])
        BLACK.seek(0)
        BLACK.truncate()


def read(path):
    d, a = {}, {}
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                d[name] = obj[()]
            for k, v in obj.attrs.items():
                a[name, k] = v
        f.visititems(visit)
        for k, v in f.attrs.items():
            a['', k] = v
    return d, a


def setup(T, lms, ranges, opts):
    for k, (l, m), (a, b) in zip(('parent', 'daughter_1', 'daughter_2'), lms, ranges):
        for path, v in (('l', l), ('m', m), ('n.low', a), ('n.high', b)):
            T.set(f'mode_info.{k}.{path}', v)
        T.set(f'mode_info.coupling.{k}.n', a)
    for k, v in opts.items():
        T.set(k, v)
