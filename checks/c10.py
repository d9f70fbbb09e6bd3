"""C10: combination generators against set-theoretic definitions."""
import itertools
import statistics
from math import comb

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C10', 'one case = one generator call on seeded input sets (disjoint, nested, '
           'overlapping, unsorted, negative and large integers, empty, strings), or one '
           'mode-input generator built from radial-order ranges; the monitor compares with the '
           'defining set of combinations')
build.setup(['fornberg-num-deriv', 'cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator'])
from py_combinations import CartesianCombos, SingleSetCombos, SymmetricProductCombos  # noqa: E402
from aesolver.mode_input_generator import InputGen  # noqa: E402

rng = ck.rng()


def intset():
    n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 12)), int(rng.integers(12, 40))]))
    kind = rng.integers(5)
    if kind == 0:
        s = list(range(int(rng.integers(-50, 200)), 10 ** 6))[:n]
    elif kind == 1:
        s = sorted(rng.choice(np.arange(-60, 60), n, replace=False).tolist())
    elif kind == 2:
        s = rng.choice(np.arange(0, 3000), n, replace=False).tolist()
    elif kind == 3:
        s = rng.choice(np.arange(90, 150), min(n, 60), replace=False).tolist()
    else:
        s = list(range(110, 110 + n))[::-1]
    return s


def container(s):
    k = rng.integers(4)
    if k == 0:
        return tuple(s)
    if k == 1 and len(s) and not isinstance(s[0], str) and s == list(range(s[0], s[0] + len(s))):
        return range(s[0], s[0] + len(s))
    if k == 2 and s and isinstance(s[0], int):
        return np.array(s)
    return list(s)


for i in range(ck.n(700, 10000)):
    A, B = intset(), intset()
    r = rng.random()
    if r < 0.15:
        B = list(A)
    elif r < 0.3 and len(A) > 1:
        B = A[: len(A) // 2] + B[:3]
        B = list(dict.fromkeys(B))
    elif r < 0.35:
        A, B = [f's{x}' for x in A], [f's{x}' for x in B]
    a, b = container(A), container(B)
    wit = {'A': A, 'B': B}
    with ck.guard('cartesian-raised', witness=wit):
        o = CartesianCombos(a, b)
        ck.expect(o.l == list(itertools.product(A, B)) and o.c == len(A) * len(B),
                  'cartesian', 'not the Cartesian product', wit)
    with ck.guard('single-raised', witness=wit):
        o = SingleSetCombos(a)
        ck.expect(o.l == list(itertools.combinations(A, 2)) and o.c == comb(len(A), 2),
                  'single', 'not the set of two-element combinations', wit)
    with ck.guard('symmetric-raised', witness=wit):
        for diag in (False, True):
            o = SymmetricProductCombos(a, b, diag) if i % 2 else \
                SymmetricProductCombos(A=a, B=b, include_diagonal=diag)
            want = {frozenset((x, y)) for x in A for y in B if x != y or diag}
            got = [frozenset(t) for t in o.l]
            ck.expect(all(len(t) == 2 for t in o.l) and len(set(got)) == len(got),
                      'symmetric-duplicate', 'an unordered pair is listed twice', wit)
            ck.expect(set(got) == want, 'symmetric-set',
                      f'{len(want - set(got))} pairs missing, {len(set(got) - want)} extra', wit)
            sa, sb = set(A), set(B)
            ck.expect(all(x in sa and y in sb for x, y in o.l), 'symmetric-roles',
                      'first element not from the first set or second not from the second', wit)
            ck.expect(o.c == len(want), 'symmetric-cardinality',
                      f'cardinality {o.c} for {len(want)} pairs', wit)
            ck.expect(SymmetricProductCombos(a, b, diag).l == o.l, 'symmetric-order',
                      'a second enumeration differs', wit)
    ck.case('sets', (A, B, i), wit)

for i in range(ck.n(300, 4000)):
    ls, ms = rng.integers(0, 5, 3).tolist(), rng.integers(-3, 4, 3).tolist()
    d0 = int(rng.choice([1, 15, int(rng.integers(1, 200)), -20]))
    d1 = d0 + int(rng.integers(-1, 6))
    p0 = int(rng.choice([1, 30, 100, 120, int(rng.integers(1, 300)), -7]))
    p1 = p0 + int(rng.integers(-1, 12))
    two = bool(rng.integers(2))
    if two:
        q0 = p0 + int(rng.integers(-8, 9))
        q1 = q0 + int(rng.integers(-1, 12))
    else:
        q0 = q1 = None
    wit = {'driven': [d0, d1], 'first': [p0, p1], 'second': [q0, q1], 'l': ls, 'm': ms}
    with ck.guard('input-generator-raised', witness=wit):
        if i % 2 or two:
            g = InputGen(mode_l=ls, mode_m=ms, driven_n_low=d0, driven_n_high=d1,
                         damped_n_low1=p0, damped_n_high1=p1, damped_n_low2=q0,
                         damped_n_high2=q1)
        else:
            g = InputGen(ls, ms, d0, d1, p0, p1)
        got = [tuple(map(int, t)) for t in g.combinations_radial_orders]
        D, P = range(d0, d1 + 1), range(p0, p1 + 1)
        if two:
            Q = range(q0, q1 + 1)
            want = {(x, y, z) for x in D for y in P for z in Q}
            ck.expect(all(y in P and z in Q for _, y, z in got), 'triad-roles',
                      'a daughter radial order is outside its own range', wit)
        else:
            want = {(x, frozenset(t)) for x in D for t in itertools.combinations(P, 2)}
        have = got if two else [(x, frozenset((y, z))) for x, y, z in got]
        ck.expect(len(have) == len(set(have)), 'triad-duplicate', 'a triad is listed twice', wit)
        ck.expect(set(have) == want, 'triad-set', f'{len(want - set(have))} triads missing, '
                  f'{len(set(have) - want)} extra', wit)
        ck.expect(list(g.mode_l) == ls and list(g.mode_m) == ms, 'triad-lm',
                  'degrees or azimuthal orders changed', wit)
        avg, wu = list(g.average_radial_orders), list(g.wu_difference_statistics)
        ck.expect(len(avg) == len(got) and len(wu) == len(got), 'triad-statistics-length',
                  'one statistic per triad is missing', wit)
        for t, av, w in zip(got, avg, wu):
            if abs(av - sum(t) / 3) > 1e-12 * (1 + abs(av)) or w != t[0] - abs(t[1] - t[2]):
                ck.violate('triad-statistics', f'statistics {av}, {w} of triad {t}', wit)
                break
        ck.observe('triads', len(got))
        g2 = InputGen(ls, ms, d0, d1, p0, p1, q0, q1)
        ck.expect([tuple(t) for t in g2.combinations_radial_orders] == got, 'triad-order',
                  'a second enumeration differs', wit)
    ck.case('triads', (d0, d1, p0, p1, q0, q1), wit)
ck.need('triads', 500)
ck.finish()
