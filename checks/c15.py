"""C15: selection rules and pre-check verdicts."""
import numpy as np

from vh import build, gen
from vh.report import Check

ck = Check('C15', 'one case = one list of modes with triads, conjugations and options; verdicts compared '
           'with the rules evaluated directly on the quantum numbers')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from aesolver.frequency_handling import FH  # noqa: E402
from aesolver.pre_checks import PreCheckQuadratic, PreThreeQuad  # noqa: E402
from aesolver.solver.solver_base_classes import QuadraticAESolver  # noqa: E402

rng = ck.rng()


def modes(n):
    out = []
    for _ in range(n):
        ell = int(rng.integers(0, 12 if rng.random() < .2 else 5))
        out.append({'l': ell, 'm': int(rng.integers(-ell, ell + 1)), 'n_pg': -int(rng.integers(1, 120))})
    return out


def bias(ms, t, conj):
    """Makes a triad fulfil the azimuthal rule often."""
    a, b, c = (ms[i - 1] for i in t)
    sg = [-1 if x else 1 for x in conj]
    if rng.random() < .7 and len(set(t)) == 3:
        m = -(sg[1] * b['m'] + sg[2] * c['m']) * sg[0]
        k = int(rng.integers(0, 4))
        a['l'], a['m'] = abs(m) + k, m


def rule_az(ms, t, conj):
    return sum((-1 if c else 1) * ms[i - 1]['m'] for i, c in zip(t, conj)) == 0


def rule_mer(ms, t):
    return sum(ms[i - 1]['l'] - abs(ms[i - 1]['m']) for i in t) % 2 == 0


def one_generic():
    n = int(rng.integers(3, 8))
    ms = modes(n)
    nt = int(rng.choice([1, 1, 2, 3, 5]))
    triads = [tuple(int(x) for x in rng.choice(n, size=3, replace=rng.random() < .2) + 1) for _ in range(nt)]
    if rng.random() < .2:
        triads = [(1, 2, 3)]
    which = rng.random()
    if which < .4:
        conj_in, conj = None, [(True, False, False)] * len(triads)
    else:
        conj = [[(True, False, False), (False, True, True), (False, False, False),
                 (True, True, False), (False, False, True)][int(rng.integers(5))] for _ in triads]
        conj_in = list(conj)
    for t, c in zip(triads, conj):
        bias(ms, t, c)
    want = [rule_az(ms, t, c) and rule_mer(ms, t) for t, c in zip(triads, conj)]
    wit = dict(modes=ms, triads=triads, conj=conj_in)
    data = [dict(m) for m in ms]
    kw = {}
    if triads != [(1, 2, 3)] or rng.random() < .5:
        kw['triads'] = list(triads)
    if conj_in is not None or rng.random() < .5:
        kw['conjugation'] = conj_in
    ck.case('generic', wit)
    with ck.guard('raised', witness=wit):
        o = PreCheckQuadratic(data, all_fulfilled=False, **kw)
        got = list(o.generic_check())
        ck.observe('verdict True', sum(want))
        ck.observe('verdict False', len(want) - sum(want))
        ck.expect(len(got) == len(want) and all(bool(a) == b for a, b in zip(got, want)), 'rules',
                  f'verdicts {got}, rules {want}', wit)
        ck.expect(list(o.generic_check()) == got, 'repeat', 'second call differs', wit)
        p = PreCheckQuadratic(data, **kw)
        ck.expect(bool(p.generic_check()) == all(want) and np.ndim(p.generic_check()) == 0, 'all',
                  'combined verdict is not the conjunction', wit)
        for name, f in (('l_list', lambda d: d['l']), ('m_list', lambda d: d['m']),
                        ('k_list', lambda d: d['l'] - abs(d['m']))):
            w = [[f(ms[i - 1]) for i in t] for t in triads]
            ck.expect([list(x) for x in getattr(o, name)] == w, name,
                      f'{name} {getattr(o, name)} instead of {w}', wit)
        ck.expect(data == ms, 'mutated', 'mode data changed', wit)
        # the naming (numbering) of the modes does not matter
        perm = rng.permutation(n)
        inv = np.empty(n, int)
        inv[perm] = np.arange(n)
        kw2 = dict(kw, triads=[tuple(int(inv[i - 1]) + 1 for i in t) for t in triads])
        o2 = PreCheckQuadratic([data[i] for i in perm], all_fulfilled=False, **kw2)
        ck.expect(list(o2.generic_check()) == got, 'numbering', 'verdict depends on the mode numbering', wit)


def one_three():
    ms = modes(3)
    conj = (True, False, False)
    bias(ms, (1, 2, 3), conj)
    g = 10 ** rng.uniform(-2, 2, size=3) * 1e-9 * rng.choice([-1, 1], size=3)
    if rng.random() < .6:
        g = np.abs(g) * [.02, -1, -1]
    q = float(10 ** rng.uniform(-1, 1) * rng.choice([-1, 1]))
    if abs(g.sum()) < 1e-3 * np.abs(g).max():
        return
    w = np.array([0., 1.1e-5, 2.3e-5])
    w[0] = w[1] + w[2] + q * g.sum()
    ad, nad = gen.mode_dicts(w, g, [d['m'] for d in ms], 2e-6, rng, [d['l'] for d in ms], [d['n_pg'] for d in ms])
    fh = FH(*ad, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*nad)
    wit = dict(modes=ms, g=g, q=q)
    ck.case('three modes', wit)
    sel = rule_az(ms, (1, 2, 3), conj) and rule_mer(ms, (1, 2, 3))
    with ck.guard('raised-three', witness=wit):
        kw = {} if rng.random() < .5 else dict(triads=[(1, 2, 3)], conjugation=[conj])
        o = PreThreeQuad(ad, fh, **kw)
        got = bool(o.check())
        ck.observe(f'pre-check {got}')
        # the stability part alone: the same modes with quantum numbers that fulfil both rules
        good = [dict(d) for d in ad]
        for d, (ell, m) in zip(good, ((2, 2), (1, 1), (1, 1))):
            d['l'], d['m'] = ell, m
        stab = bool(PreThreeQuad(good, fh, **kw).check())
        ck.observe(f'stability part {stab}')
        ck.expect(got == (sel and stab), 'conjunction', f'pre-check {got}, selection rules {sel}, '
                  f'stability {stab}', wit)
        if not (g[0] > 0 and max(g[1:]) < 0):
            ck.expect(not got, 'kind', 'triad without driven parent and damped daughters accepted', wit)
        if g.sum() >= 0:
            ck.expect(not got, 'sum', 'triad with positive sum of rates accepted', wit)
        ck.expect(bool(o.check()) == got, 'repeat-three', 'second call differs', wit)
        ck.expect(bool(PreCheckQuadratic(ad, **kw).generic_check()) == sel, 'generic-three', 'rules', wit)


def one_harmonic():
    ms = modes(3)
    for key in ('l', 'm', 'n_pg'):
        if rng.random() < .7:
            ms[2][key] = ms[1][key]
    want = all(ms[1][x] == ms[2][x] for x in ('l', 'm', 'n_pg'))
    ck.case('harmonic', ms)
    ck.observe(f'harmonic {want}')
    with ck.guard('raised-harmonic', witness=ms):
        ck.expect(bool(QuadraticAESolver.check_two_mode_sum_resonance(ms)) == want, 'harmonic',
                  'two-mode resonance verdict', ms)


# every (l, m) assignment with small degrees, exhaustively
small = [(ell, m) for ell in range(0, 4) for m in range(-ell, ell + 1)]
for a in small:
    for b in small:
        for c in small:
            ms = [{'l': x[0], 'm': x[1]} for x in (a, b, c)]
            ck.case('exhaustive', (a, b, c))
            with ck.guard('raised-small', witness=ms):
                ck.expect(bool(PreCheckQuadratic(ms).generic_check())
                          == (rule_az(ms, (1, 2, 3), (True, False, False)) and rule_mer(ms, (1, 2, 3))),
                          'rules-small', 'selection rules', ms)
for _ in range(ck.n(3000, 40000)):
    one_generic()
for _ in range(ck.n(1000, 10000)):
    one_three()
for _ in range(ck.n(300, 3000)):
    one_harmonic()
ck.need('verdict True', 200)
ck.need('pre-check True', 30)
ck.finish()
