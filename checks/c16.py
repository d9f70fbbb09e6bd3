"""C16: normalisation of eigenfunctions, on recording stand-ins with quadratic energies and on the
real coupling objects with an independent energy integral."""
import numpy as np

from vh import build
from vh.report import Check

ck = Check('C16', 'one case = (modes, convention, iterative or not, scale of the input) on a stand-in, '
           'or (star, modes, rotation, options) on the real coupling object; oracle = square root of '
           'reference over independently integrated energy, one factor for all components')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.coupling_coefficients import QCCR  # noqa: E402
from aesolver.coupling_coefficients.enumeration_files import EnumRadial, EnumRadialPoly  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from gyre_eigen_norm import GYREEigenFunctionNormalizer as Norm  # noqa: E402
from hough_function import HF  # noqa: E402
from vh.coupling import Mode  # noqa: E402
from vh.star import Polytrope  # noqa: E402

rng = ck.rng()


class Own:
    """Enumeration with names of its own."""
    names = ['_alpha', 'beta']

    @classmethod
    def access_all_parameters(cls):
        return list(cls.names)


class Star:
    """Object with eigenfunctions whose energies are quadratic forms of all components."""

    def __init__(self, enum, nr, r, cplx, scale):
        self._G, self._M_star, self._R_star = (np.float64(r.uniform(.1, 10)) for _ in range(3))
        self.enum, self.nr, self.calls = enum, nr, []
        self.weights = {}
        n = int(r.integers(1, 30))
        for i in range(1, nr + 1):
            for b in enum.access_all_parameters():
                v = r.normal(size=n) + (1j * r.normal(size=n) if cplx else 0)
                setattr(self, f'{b}_mode_{i}', v * scale[i - 1])
                self.weights[b, i] = r.uniform(.1, 2, n)
            setattr(self, f'_untouched_mode_{i}', r.normal(size=n))
            self.compute_b_a_mode_energy(i)
        self._untouched = r.normal(size=n)

    def energy(self, i):
        return np.float64(sum(self.weights[b, i] @ np.abs(getattr(self, f'{b}_mode_{i}')) ** 2
                              for b in self.enum.access_all_parameters()))

    def compute_b_a_mode_energy(self, mode_nr):
        self.calls.append(mode_nr)
        e = self.energy(mode_nr)
        setattr(self, f'_energy_mode_{mode_nr}', e)
        setattr(self, f'_classic_norm_mode_{mode_nr}', 3 * e)


def arrays(o):
    return {k: np.array(v) for k, v in vars(o).items() if isinstance(v, np.ndarray)}


for it in range(ck.n(300, 6000)):
    enum = (EnumRadial, EnumRadialPoly, Own)[it % 3]
    nr = int(rng.integers(1, 5))
    conv = ('lee2012', 'schenk2002', 'LEE2012')[int(rng.integers(3))]
    iterate = bool(rng.integers(2))
    top = int(rng.integers(1, 12))
    cplx = bool(rng.integers(2))
    scale = 10.0 ** rng.uniform(-8, 8, nr)
    sub = np.random.default_rng(it + 7919 * ck.seed)
    o = Star(enum, nr, sub, cplx, scale)
    wit = dict(enum=enum.__name__, nr=nr, conv=conv, iterate=iterate, top=top, complex=cplx,
               scale=scale)
    before = arrays(o)
    e0 = [o.energy(i) for i in range(1, nr + 1)]
    if conv.lower() == 'lee2012':
        ref, mul = o._G * o._M_star ** 2 / o._R_star, 1
    else:
        ref, mul = o._M_star * o._R_star ** 2, 3
    with ck.guard('raised', witness=wit):
        norm = Norm(my_obj=o, coupler_enumeration=enum, norm_convention=conv, nr_modes=nr,
                    iterative_process=iterate, max_iterations=top)
        norm()
        fac = np.array(norm.normalizing_factors)
        ck.close(fac, [np.sqrt(ref / (mul * e)) for e in e0], 'factor',
                 'normalisation factor', wit, rtol=1e-12, scale=np.sqrt(ref / (mul * np.array(e0))))
        for i in range(1, nr + 1):
            ck.close(mul * o.energy(i), ref, 'energy', 'recomputed energy is not the reference', wit,
                     rtol=1e-12)
            ck.close(getattr(o, f'_energy_mode_{i}'), o.energy(i), 'stale', 'stored energy is not '
                     'that of the stored eigenfunctions', wit, rtol=1e-14)
            for b in enum.access_all_parameters():
                k = f'{b}_mode_{i}'
                ck.close(getattr(o, k), before[k] * fac[i - 1], 'one-factor', f'{k} was not '
                         'multiplied by the factor of its mode', wit, rtol=1e-12,
                         scale=np.max(np.abs(before[k])) * fac[i - 1])
            ok = not norm.normalization_check_array[i - 1]
            exact = mul * getattr(o, f'_energy_mode_{i}') == ref
            ck.expect(ok == bool(exact), 'check-array', 'the check array does not say which modes '
                      'miss the reference', wit)
            ck.observe('exact' if exact else 'inexact')
        done = {f'{b}_mode_{i}' for b in enum.access_all_parameters() for i in range(1, nr + 1)}
        for k, v in before.items():
            if k not in done:
                ck.expect(np.array_equal(v, getattr(o, k)), 'other', f'{k} was modified', wit)
        perf, mx, its = norm.iteration_characteristics
        ck.expect(perf == iterate and mx == top and its <= top and (iterate or its == 0),
                  'iterations', 'iteration characteristics', (perf, mx, its))
        if iterate:
            ck.expect(its == top or not np.any(norm.normalization_check_array), 'gave-up',
                      f'stopped after {its} of {top} iterations with modes that miss the reference', wit)
        ck.expect(norm.normalization_convention == conv, 'convention', 'convention', wit)
        # idempotent, independent of the input scale
        again = Norm(my_obj=o, coupler_enumeration=enum, norm_convention=conv, nr_modes=nr)
        after = arrays(o)
        again()
        ck.close(again.normalizing_factors, np.ones(nr), 'idempotent', 'normalising again changes '
                 'the eigenfunctions', wit, rtol=1e-13)
        p = Star(enum, nr, np.random.default_rng(it + 7919 * ck.seed), cplx, np.ones(nr))
        Norm(my_obj=p, coupler_enumeration=enum, norm_convention=conv, nr_modes=nr)()
        for k in done:
            ck.close(getattr(p, k), after[k], 'scale', f'{k} depends on the scale of the input', wit,
                     rtol=1e-10)
    ck.case('stand-in', (it, nr, conv, iterate, cplx))
for bad in ('nonsense', '', 'lee'):
    o = Star(Own, 2, rng, False, [1, 1])
    ck.raises(lambda: Norm(my_obj=o, coupler_enumeration=Own, norm_convention=bad, nr_modes=2)(),
              'unknown-convention', 'unknown convention accepted', bad)
    ck.case('malformed', bad)

# ---- the real object
ATTR = {'_z_1': 'z1', '_z_2_over_c_1_omega': 'zh', '_rad_diverg': 'div', '_rad_der_x_z_1': 'd1',
        '_rad_der_x_z_2_c_1_omega': 'd2'}
for it in range(ck.n(20, 250)):
    P = Polytrope(float(rng.uniform(1.5, 3.5)), 5 / 3, float(rng.uniform(.9, .98)),
                  int(rng.integers(60, 160)), M=float(rng.uniform(4e33, 2e34)),
                  R=float(rng.uniform(1e11, 5e11)),
                  grid=('uniform', 'quadratic', 'random')[it % 3], rng=rng)
    rot = float(rng.choice([1e-6, .02, .1, .3])) * P.w0
    cplx = it % 5 == 4
    npts = int(rng.choice([80, 140, 200]))
    ds, lms = [], []
    frame = (b'INERTIAL', b'COROTATING_I')[it % 2]
    wit = dict(n=P.n, rot=rot / P.w0, complex=cplx, npts=len(P.x), mu=npts)
    with ck.guard('raised-real', witness=wit):
        for i in range(3):
            l = int(rng.integers(1, 4))
            m = int(rng.integers(-l, l + 1))
            w = float(rng.uniform(.9, 4))
            lms.append((l, m, w))
            h = HF(nu=2 * rot / (w * P.w0), l=l, m=m, npts=npts,
                   definition='lee_saio_equivalent')
            h()
            lam = -h._eigenvalue
            d = P.mode_dict(l, m, lam, w, P.eigen(l, lam, w), rot, frame=frame)
            f = 10.0 ** rng.uniform(-4, 4) * (np.exp(1j * rng.uniform(0, 6)) if cplx else 1)
            for k in ('y_1', 'y_2', 'lag_L', 'lag_L_dim', 'xi_r', 'xi_h', 'xi_r_dim', 'xi_h_dim'):
                d[k] = d[k] * f
            if cplx:
                d['y_2'] = d['y_2'] * (1 + .3j * P.x)
            ds.append(d)
        wit['modes'] = lms
        fh = FH(*ds)
        fh.set_mode_nonadiabatic_info(*ds)
        c = QCCR(*ds, P.profile(), fh, [d['l'] for d in ds], [d['m'] for d in ds], npoints=npts,
                 use_complex=cplx, use_parallel=bool(rng.integers(2)))
        md = [Mode(d, npts, cplx, rho=P.rho[1:-1]) for d in ds]
        fac = np.asarray(c.normalization_factors)
        ck.close(fac, [q.scale for q in md], 'real-factor', 'normalisation factors', wit,
                 rtol=1e-9, scale=np.array([q.scale for q in md]))
        ref = P.G * P.M ** 2 / P.R
        for i, (q, d) in enumerate(zip(md, ds)):
            # Mode has scaled its own functions: their energy is the reference
            q._energy()
            ck.close(q.energy, ref, 'oracle-energy', 'reference energy', wit, rtol=1e-11)
            e = getattr(c, f'_energy_mode_{i + 1}', None)
            if e is not None:
                ck.close(e, ref, 'real-energy', 'energy after normalisation', wit, rtol=1e-11)
            for a, b in ATTR.items():
                v = getattr(c, f'{a}_mode_{i + 1}', None)
                if v is not None:
                    want = getattr(q, b)
                    ck.close(v if cplx else np.real(v), want, f'real{a}', f'{a} of mode {i + 1} '
                             'after normalisation', wit, rtol=1e-8, scale=np.max(np.abs(want)))
                    ck.observe('component')
            v = getattr(c, f'_lag_L_dim_mode_{i + 1}', None)
            if v is not None:
                want = d['lag_L_dim'] * fac[i]
                if len(v) != len(want):
                    want = want[1:-1]
                ck.close(v, want, 'real-lagL', 'luminosity perturbation after normalisation', wit,
                         rtol=1e-9)
        # other options of the angular integrals give the same energies
        for kw in (dict(use_cheby_integration=False, numerical_integration_method='simpson'),):
            c2 = QCCR(*ds, P.profile(), fh, [d['l'] for d in ds], [d['m'] for d in ds], npoints=npts,
                      use_complex=cplx, **kw)
            ck.close(c2.normalization_factors, fac, 'real-simpson', 'Simpson rule', wit, rtol=3e-2,
                     scale=fac)
    ck.case('real', (it, tuple(lms), cplx))
ck.need('component', 100)
ck.need('exact', 20)
ck.need('inexact', 20)
ck.finish()
