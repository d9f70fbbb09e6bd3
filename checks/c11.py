"""C11: pairing functions: inverses, injectivity, surjectivity, symmetry, large integers."""
import numpy as np

from vh import build
from vh.report import Check

ck = Check('C11', 'one case = one pair (or one code) pushed through a pairing function and its '
           'inverse: all pairs of a box for several lower bounds, codes around perfect squares '
           'and triangular numbers, and integers up to 2^200')
build.setup()
import pairing_functions as pf  # noqa: E402

rng = ck.rng()
FUN = {'cantor': (pf.cantor_pair, pf.invert_cantor_pair, False, 0),
       'symmetric': (pf.symmetric_pair, pf.invert_symmetric_pair, True, 1),
       'xie': (pf.xie_symmetric_pair, pf.invert_xie_symmetric_pair, True, 1)}


def norm(t, sym):
    t = tuple(int(v) for v in t)
    return tuple(sorted(t)) if sym else t


def forms(a, b):
    yield (a, b)
    yield [a, b]
    if max(abs(a), abs(b)) < 2 ** 25:
        yield np.array([a, b])


def roundtrip(name, a, b, low, kind):
    f, g, sym, _ = FUN[name]
    wit = {'function': name, 'pair': [str(a), str(b)], 'lowest': low}
    code = None
    with ck.guard(f'{name}-raised', witness=wit):
        for form in forms(a, b):
            code = f(form, low) if low or kind != 'box' else f(form, lowest_integer=0)
            ck.expect(int(code) == code and code >= 0, f'{name}-code',
                      f'code {code!r} is not a non-negative integer', wit)
            back = g(code, low)
            ck.expect(len(back) == 2 and norm(back, sym) == norm((a, b), sym),
                      f'{name}-inverse-{kind}', f'code {code} decodes to {tuple(back)}', wit)
        if sym:
            ck.expect(f((b, a), low) == code, f'{name}-symmetry', 'code depends on the order', wit)
    ck.case(f'{name}-{kind}', (a, b, low), wit)
    return int(code) if code is not None else None


BOX = ck.n(45, 160)
for name, (f, g, sym, first) in FUN.items():
    for low in (0, 1, -7, 15):
        seen = {}
        for a in range(low, low + BOX):
            for b in range(low, low + BOX):
                c = roundtrip(name, a, b, low, 'box')
                k = norm((a, b), sym)
                if c is None:
                    continue
                if seen.setdefault(c, k) != k:
                    ck.violate(f'{name}-collision', f'{k} and {seen[c]} share the code {c}',
                               {'lowest': low})
        # every code up to the first one outside the box is used: a bijection
        top = BOX * BOX // 4 - BOX
        missing = [c for c in range(first, first + top) if c not in seen]
        ck.expect(not missing, f'{name}-surjective', f'codes {missing[:5]} encode nothing',
                  {'lowest': low})
        with ck.guard(f'{name}-raised'):
            for c in range(first, first + 3000):
                t = g(c, low)
                ck.expect(min(t) >= low and f(tuple(t), low) == c, f'{name}-reencode',
                          f'code {c} decodes to {tuple(t)} which does not encode back',
                          {'lowest': low})
                ck.case(f'{name}-code', (c, low))
    # large integers: random, near-diagonal, diagonal, and zero partners
    for i in range(ck.n(600, 10000)):
        bits = int(rng.integers(20, 200))
        a = int.from_bytes(rng.bytes(25), 'little') >> (200 - bits)
        r = rng.integers(5)
        b = [a, a + 1, 0, max(a - 1, 0),
             int.from_bytes(rng.bytes(25), 'little') >> (200 - int(rng.integers(20, bits + 1)))][r]
        low = int(rng.choice([0, 0, 3, -11]))
        roundtrip(name, a + low, b + low, low, 'large')
    # codes next to perfect squares and triangular numbers
    for i in range(ck.n(400, 5000)):
        n = int.from_bytes(rng.bytes(16), 'little') >> int(rng.integers(0, 110))
        n = max(n, 3)
        for c in (n * n - 1, n * n, n * n + 1, n * (n + 1) // 2 - 1, n * (n + 1) // 2,
                  n * (n + 1) // 2 + 1, n * (n + 1), n * (n + 1) - 1, n * (n + 1) + 1):
            with ck.guard(f'{name}-raised', witness=str(c)):
                t = g(c)
                ck.expect(min(t) >= 0 and f(tuple(t)) == c, f'{name}-reencode-large',
                          f'code {c} decodes to {tuple(t)} which does not encode back')
            ck.case(f'{name}-boundary', str(c))
ck.finish()
