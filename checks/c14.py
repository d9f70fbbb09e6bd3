"""C14: stability verdicts against the eigenvalues of the linearised amplitude equations."""
import numpy as np

from vh import build, gen
from vh.amplitude import three, two, verdict
from vh.report import Check

ck = Check('C14', 'one case = one (rates, frequencies, detuning, coupling) setup or one matrix; the '
           'eigenvalues of an independently linearised system decide the verdict')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver import stability_checker as sc  # noqa: E402
from aesolver.stability_checker.three_mode import stab_checker_quadratic_three_sum as s3  # noqa: E402
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.pre_checks import PreThreeQuad, check_direct, check_driven, check_parametric  # noqa: E402

rng = ck.rng()


def figure_script():
    """The stability domains drawn in the published figure (a script of the repository)."""
    import importlib.util
    import os

    import matplotlib
    matplotlib.use('Agg')
    path = os.path.join(build.REPO, 'VB_et_al_2024_additional_plot_compute_scripts', 'dziembowski_subplot.py')
    if not os.path.exists(path):
        return None
    with matplotlib.rc_context():
        spec = importlib.util.spec_from_file_location('dziembowski_subplot', path)
        mod = importlib.util.module_from_spec(spec)
        with ck.guard('figure-script'):
            spec.loader.exec_module(mod)
    return getattr(mod, 'corrected_dziembowski', None)


domain = figure_script()


def rates(spread=1.5):
    return 10 ** rng.uniform(-spread, spread, size=3)


def one_three():
    g = rates() * [1, -1, -1]
    if rng.random() < .6:
        g[0] = rng.uniform(0.05, 1.0) * -(g[1] + g[2])
    if rng.random() < .2:                     # close daughters / dominating daughter
        g[2] = g[1] * 10 ** rng.uniform(-.05, .05)
    w = 10 ** rng.uniform(-.5, .5, size=3) * 1e4
    direct = rng.random() < .15
    if direct:
        g = -g
    gs = g.sum()
    if abs(gs) < 1e-6 * np.abs(g).max():
        return
    q = 10 ** rng.uniform(-1.5, 1.5) * rng.choice([-1, 1])
    delta = q * gs
    wit = dict(g=g, w=w, q=q)
    J, q = three(w, g, delta, 1.0)
    v = verdict(J)
    ck.case('three modes', wit)
    if v is None:
        ck.observe('too close to call')
        return
    ck.observe(f'stable={v}')
    with ck.guard('raised', witness=wit):
        gsum = bool(sc.gss(g))
        ck.expect(gsum == (gs < 0), 'sum', 'sum of rates verdict', wit)
        ck.expect(bool(sc.gss([float(x) for x in g])) == (gs < 0), 'sum-list', 'sum of rates (list)', wit)
        ck.expect(bool(sc.gss(float(gs))) == (gs < 0), 'sum-float', 'sum of rates (float)', wit)
        names = ('check_corrected_dziembowski_conditions', 'check_additional_condition_equivalent')
        fns = [('check_van_beeck_conditions', sc.check_van_beeck_conditions)] + \
            [(n, getattr(s3, n)) for n in names if hasattr(s3, n)]
        for name, fn in fns:
            if gs < 0 and not direct:
                ck.expect(bool(fn(g, q)) == v, f'{name}', f'{name} says {bool(fn(g, q))}, eigenvalues '
                          f'{np.linalg.eigvals(J)}', wit)
                ck.expect(bool(fn(g * 1e-9, q)) == v, f'{name}-scale', 'verdict depends on the unit of '
                          'time', wit)
                ck.expect(bool(fn(g[[0, 2, 1]], q)) == v and bool(fn(g, -q)) == v, f'{name}-symmetry',
                          'verdict depends on daughter order or detuning sign', wit)
        if domain is not None and not direct:
            t = -g[1:] / g[0]
            got = domain(t[[0, 1]], t[[1, 0]], delta / g[0])
            ck.expect(np.shape(got) == (2,) and all(bool(u) == v for u in got), 'figure-domain', 'stability domain of the '
                      f'figure {got}, eigenvalues {np.linalg.eigvals(J)}', wit)
            ck.observe('point of the figure')
        if direct:
            ck.expect(not v, 'oracle', 'direct resonances of three modes are unstable', wit)
        else:
            ck.expect((bool(sc.check_van_beeck_conditions(g, q)) and gsum) == v, 'stable',
                      f'stability verdict differs from the eigenvalues {np.linalg.eigvals(J)}', wit)
        eta = float(10 ** rng.uniform(-3, 3))
        Jt, _ = three(w, g, delta, eta)
        for e, arg in ((eta, eta), (eta, [eta])):
            Jc = np.array(sc.hyper_jac(g, w, q, arg))
            ck.expect(Jc.shape == (4, 4), 'jacobian-shape', 'shape', wit)
            for i in range(4):
                for j in range(4):
                    got, want = Jc[i, j], Jt[i, j]
                    tol = 1e-8 * abs(want) + 1e-9 * np.abs(g).max() * (i == j)
                    if abs(got - want) <= tol:
                        continue
                    ck.violate(f'jacobian-sign-{i}{j}' if abs(got + want) <= tol else f'jacobian-value-{i}{j}',
                               f'Jacobian entry {got} instead of {want}', wit)
        ck.observe('Jacobian entry', 32)
        if np.abs(np.linalg.eigvals(J).real).min() > 1e-7 * np.abs(np.linalg.eigvals(J)).max():
            ck.expect(sc.check_hyper(Jt) and sc.check_hyper(sc.hyper_jac(g, w, q, eta)), 'hyperbolic',
                      'hyperbolic point reported as not hyperbolic', wit)
        # the harmonic Jacobian: conjugation by a diagonal matrix when eta changes, linear in time
        g2, w2 = g[[0, 1, 1]], w[[0, 1, 1]]
        A = np.array(sc.hyper_jac_three(g2, w2, q, eta))
        B = np.array(sc.hyper_jac_three(g2, w2, q, [eta * 7]))
        ev = lambda M: np.sort_complex(np.linalg.eigvals(M))  # noqa: E731
        s = np.abs(ev(A)).max()
        ck.close(np.poly(B / s), np.poly(A / s), 'harmonic-eta', 'eigenvalues depend on the coupling', wit, rtol=1e-8, scale=1.)
        ck.close((np.array(sc.hyper_jac_three(g2 * 1e-3, w2 * 1e-3, q, eta)) * 1e3).ravel(), A.ravel(),
                 'harmonic-time', 'Jacobian is not linear in the unit of time', wit, rtol=1e-9,
                 scale=np.abs(A).ravel())
        if rng.random() < .5:
            g2 = -g2
            A = np.array(sc.hyper_jac_three(g2, w2, q, eta))
        At, _ = two(w2, g2, q * g2.sum(), 1.0)
        if not np.allclose(np.poly(A / s), np.poly(At / s), rtol=1e-6, atol=1e-6):
            ck.violate('harmonic-jacobian-spectrum', 'spectrum of the harmonic Jacobian is not that of '
                       'the linearised two-mode equations', wit)


def one_two():
    par = rng.random() < .65
    g1 = 10 ** rng.uniform(-1, 1) * (1 if par else -1)
    g2 = -np.sign(g1) * abs(g1) * (10 ** rng.uniform(-1, 1) if rng.random() < .4 else rng.uniform(1.2, 6))
    if not par and rng.random() < .6:
        g2 = abs(g1) * rng.uniform(.05, .8)
    gs = g1 + 2 * g2
    if abs(gs) < 1e-6 * abs(g1):
        return
    q = 10 ** rng.uniform(-1, 1) * rng.choice([-1, 1])
    g, w = np.array([g1, g2, g2]), 10 ** rng.uniform(-.5, .5, size=2) * 1e4
    wit = dict(g=g, w=w, q=q)
    J, q = two(w, g[:2], q * gs, 1.0)
    v = verdict(J)
    ck.case('harmonic parametric' if par else 'harmonic direct', wit)
    if v is None:
        ck.observe('too close to call')
        return
    ck.observe(f'harmonic stable={v}')
    with ck.guard('raised-harmonic', witness=wit):
        if par:
            got = bool(sc.check_dziembowski_parametric(g, q))
            th = -g2 / g1
            p, m = 2 * th * (th - 1) + 1, 2 * th * (th - 1) - 1
            between = m > 0 and m / p < q * q < p / m
            ck.expect(got == v, 'harmonic-parametric-between' if between else 'harmonic-parametric',
                      f'verdict {got}, eigenvalues {np.linalg.eigvals(J)}', wit)
        else:
            ck.expect(bool(sc.check_dziembowski_direct(g)) == v, 'harmonic-direct',
                      f'eigenvalues {np.linalg.eigvals(J)}', wit)


def one_precheck():
    """The verdict of the pre-check object that the solvers consult."""
    g = rates(1.0) * rng.choice([-1, 1], size=3)
    if rng.random() < .6:
        g = np.abs(g) * [rng.uniform(.05, .8), -1, -1]
    harmonic = rng.random() < .3
    if harmonic:
        g[2] = g[1]
    g = g * 1e-9
    gs = g.sum()
    q = 10 ** rng.uniform(-1.5, 1.5) * rng.choice([-1, 1])
    delta = q * gs
    w = np.array([0, *10 ** rng.uniform(-5, -4, size=2)])
    if harmonic:
        w[2] = w[1]
    w[0] = w[1] + w[2] + delta
    m = [2, 1, 1]
    ad, nad = gen.mode_dicts(w, g, m, 1e-6, rng, [2, 1, 1], [-5, -9, -9 if harmonic else -10])
    fh = FH(*ad, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*nad)
    par, direct = bool(g[0] > 0 and max(g[1:]) < 0), bool(g[0] < 0 and min(g[1:]) > 0)
    driven = bool(min(g) > 0)
    wit = dict(g=g, w=w, q=q, harmonic=harmonic)
    ck.case('pre-check', wit)
    if harmonic and (par or direct):
        v = verdict(two(w, g[:2], delta, 1.0)[0])
    elif par:
        v = verdict(three(w, g, delta, 1.0)[0])
    else:
        v = False
    if v is None:
        return
    ck.observe(f'pre-check stable={v}')
    with ck.guard('raised-pre-check', witness=wit):
        o = PreThreeQuad(ad, fh, two_mode_harmonic=bool(harmonic))
        got = bool(o.check())
        between = False
        if harmonic and par:
            th = -g[1] / g[0]
            p_, m_ = 2 * th * (th - 1) + 1, 2 * th * (th - 1) - 1
            between = m_ > 0 and m_ / p_ < q * q < p_ / m_
        # rounding of the tiny detuning moves q by about 1e-6
        ck.expect(got == v, 'harmonic-parametric-between' if between else 'pre-check',
                  f'pre-check says {got}', wit)
        ck.expect(bool(o.check()) == got, 'pre-check-repeat', 'second call differs', wit)
        d = {'linear driving rates': np.array(fh.driving_rates)}
        ck.expect(bool(check_parametric(d)) == par and bool(check_direct(d)) == direct
                  and bool(check_driven(d)) == driven, 'kind', 'kind of resonance', wit)


def one_matrix():
    """Hyperbolicity of matrices whose spectrum is known exactly."""
    n = int(rng.integers(2, 6))
    T = np.triu(rng.integers(-5, 6, size=(n, n)).astype(float), 1)
    d = rng.integers(1, 6, size=n) * rng.choice([-1, 1], size=n)
    kind = str(rng.choice(['regular', 'zero', 'imaginary', 'nan', 'inf']))
    if kind == 'zero':
        d[rng.integers(n)] = 0
    np.fill_diagonal(T, d)
    if kind == 'imaginary':
        b = float(2.0 ** rng.integers(-3, 4))
        T[:] = np.diag(np.diag(T))
        T[:2, :2] = [[0, b], [-b, 0]]
    if kind in ('nan', 'inf'):
        T[tuple(rng.integers(0, n, size=2))] = np.nan if kind == 'nan' else np.inf * rng.choice([-1, 1])
    ck.case('matrix ' + kind, T)
    with ck.guard('raised-matrix', witness=T):
        got = bool(sc.check_hyper(T.copy()))
        ck.expect(got == (kind == 'regular'), f'hyper-{kind}', f'check_hyper says {got}', T)
        if kind == 'regular':
            ck.expect(bool(sc.check_hyper(T * 1e-4)) and bool(sc.check_hyper(T.T.copy())), 'hyper-scale',
                      'verdict depends on the scale', T)


for _ in range(ck.n(1500, 20000)):
    one_three()
for _ in range(ck.n(1500, 20000)):
    one_two()
    one_precheck()
for _ in range(ck.n(300, 3000)):
    one_matrix()
for _ in range(ck.n(50, 500)):            # no stationary state: never hyperbolic, never stable
    g = rates() * rng.choice([-1, 1], size=3)
    if (g[0] > 0 and max(g[1:]) < 0):
        continue
    ck.case('no stationary state', g)
    with ck.guard('raised-none', witness=g), np.errstate(all='ignore'):
        if g[0] > 0 or max(g[1:]) < 0 or min(g[1:]) < 0 < max(g[1:]):
            ck.expect(not sc.check_hyper(sc.hyper_jac(g, np.array([3., 2, 1]), 1.0, 1.0)), 'none-hyper',
                      'triad without stationary state reported hyperbolic', g)
ck.need('stable=True', 100)
ck.need('stable=False', 100)
ck.finish()
