"""C25: comparison and assertion helpers against reference decisions."""
import copy
import json
import logging

import numpy as np

from vh import build
from vh.report import Check

ck = Check('C25', 'one case = one pair of values (or one value and the requirements on it); the '
           'oracle decides from the way the pair was made: a copy, or a copy with one difference')
build.setup([])
logging.disable(logging.CRITICAL)
from pytest_util_functions import (check_assertions, compare_dicts, compare_elements,  # noqa: E402
                                   value_comparison)
from pytest_util_classes import EPPs, EVs  # noqa: E402

rng = ck.rng()
FUNCS = [lambda x: x, lambda x: x + x, lambda x, y: x * y, lambda: None]
SHAPES = [(), (1,), (2,), (5,), (1, 1), (1, 4), (4, 1), (3, 4), (2, 1, 3), (0,)]


def leaf(kind):
    if kind == 'int':
        return int(rng.integers(-1000, 1000))
    if kind == 'float':
        return float(rng.choice([rng.normal(), rng.normal() * 10 ** rng.uniform(-30, 30), 1.5]))
    if kind == 'complex':
        return complex(*rng.normal(size=2))
    if kind == 'bool':
        return bool(rng.integers(2))
    if kind == 'str':
        return ''.join(rng.choice(list('abc_ 1'), int(rng.integers(1, 8))))
    if kind == 'none':
        return None
    if kind == 'function':
        return FUNCS[int(rng.integers(len(FUNCS)))]
    if kind == 'array':
        s = SHAPES[int(rng.integers(len(SHAPES)))]
        t = (np.float64, np.int64, np.complex128, np.int32, np.float32)[int(rng.integers(5))]
        a = rng.normal(size=s) * 100 + (1j * rng.normal(size=s) if t is np.complex128 else 0)
        return np.asarray(a).astype(t)
    if kind == 'numbers':
        return [float(v) for v in rng.normal(size=int(rng.integers(1, 6)))]
    if kind == 'strings':
        return [leaf('str') for _ in range(int(rng.integers(1, 5)))]
    if kind == 'functions':
        return [leaf('function') for _ in range(int(rng.integers(1, 5)))]
    return tuple(int(v) for v in rng.integers(0, 99, int(rng.integers(1, 5))))


KINDS = ['int', 'float', 'complex', 'bool', 'str', 'none', 'function', 'array', 'numbers',
         'strings', 'functions', 'tuple']


def duplicate(v):
    return v if callable(v) else list(v) if isinstance(v, list) else copy.deepcopy(v)


def altered(v):
    """A value that differs from v, and in what."""
    if v is None:
        return [(0, 'kind'), ('None', 'kind'), (False, 'kind')][int(rng.integers(3))]
    if isinstance(v, bool):
        return not v, 'value'
    if isinstance(v, int):
        return [(v + int(rng.choice([-1, 1, 1000])), 'value'), (float(v), 'type'), (None, 'kind'),
                (str(v), 'kind')][int(rng.integers(4))]
    if isinstance(v, float):
        f = v * (1 + float(rng.choice([1e-7, -1e-7, .1, 2, -2]))) if v else 1.
        return [(f, 'value'), (float('nan'), 'nan'), (-v, 'sign'), (np.float64(v), 'type'),
                (None, 'kind')][int(rng.integers(5))]
    if isinstance(v, complex):
        return [(v.conjugate(), 'value'), (v + 1, 'value'), (v.real, 'type')][int(rng.integers(3))]
    if isinstance(v, str):
        return [(v + ' ', 'length'), (v[:-1], 'length'), (v[:-1] + '#', 'value'),
                (None, 'kind')][int(rng.integers(4))]
    if callable(v):
        return next(f for f in FUNCS[int(rng.integers(2)):] + FUNCS if f is not v), 'code'
    if isinstance(v, np.ndarray):
        how = int(rng.integers(6))
        if how == 0:
            t = np.float64 if v.dtype != np.float64 else np.complex128
            return v.astype(t), 'dtype'
        # (the helpers broadcast, as the test suites rely on: only lengths beyond one differ)
        if how in (1, 2, 3) and v.ndim and v.shape[-1] > 1:
            if how == 1:
                return v[..., :-1].copy() if v.shape[-1] > 2 else np.concatenate([v, v], -1), 'length'
            if how == 2:
                return np.concatenate([v, v[..., -1:]], -1), 'length'
            w = v[np.newaxis].repeat(2, 0)
            w[1] = w[1] + np.abs(w).max() + 1
            return w, 'shape'
        if v.size == 0:
            return np.zeros(3, v.dtype), 'length'
        w = np.array(v)
        i = tuple(int(rng.integers(n)) for n in w.shape)
        if how == 4 and w.dtype.kind in 'fc':
            w[i] = np.nan
            return w, 'nan'
        w[i] = w[i] + max(abs(w[i]), 1) * (1 if w.dtype.kind == 'i' else rng.choice([.001, 3]))
        return w, 'value'
    w = list(v)
    i = int(rng.integers(len(w)))
    how = int(rng.integers(4))
    if how == 0:
        w, what = w[:-1] if len(w) > 1 else w + w, 'length'
    elif how == 1:
        w, what = w + [w[i]], 'length'
    else:
        new = altered(w[i])
        while new[1] not in ('value', 'length', 'code'):
            new = altered(w[i])
        w[i], what = new[0], 'value'
    return (tuple(w) if isinstance(v, tuple) else w), what


def decide(key, fn, args, want, wit, **kw):
    with ck.guard(f'raised-{key}', witness=wit):
        got = fn(*args, **kw)
        good = np.ndim(got) == 0 and bool(got) == want
        ck.expect(good, key, f'{fn.__name__}{tuple(args)!r:.200} is {got!r:.60}, not {want}', wit)


# ---- two values
for it in range(ck.n(6000, 60000)):
    kind = KINDS[it % len(KINDS)]
    v = leaf(kind)
    nan = isinstance(v, float) and v != v
    decide(f'equal-{kind}', value_comparison, (v, duplicate(v)), not nan, dict(kind=kind, v=repr(v)))
    w, what = altered(v)
    if isinstance(v, float) and what == 'sign' and v == 0:
        continue
    decide(f'differs-{kind}-{what}', value_comparison, (v, w), False, dict(v=repr(v), w=repr(w)))
    if what != 'kind':
        decide(f'differs-{kind}-{what}', value_comparison, (w, v), False, dict(v=repr(w), w=repr(v)))
    if kind in ('array', 'float') and np.size(v):
        # within the default tolerances
        if kind == 'float' or v.dtype.kind in 'fc' and v.dtype != np.float32:
            near = v * (1 + 1e-11)
            decide(f'close-{kind}', value_comparison, (v, near), True, dict(v=repr(v)))
    ck.case(f'value {kind}', (it, kind, repr(v)[:80], repr(w)[:80]))
    ck.observe(f'different {what}')

# ---- lists and dictionaries of values
for it in range(ck.n(2000, 20000)):
    n = int(rng.integers(1, 7))
    vals = [leaf(KINDS[int(rng.integers(len(KINDS)))]) for _ in range(n)]
    keys = [f'k{i}' for i in rng.permutation(12)[:n]]
    d = dict(zip(keys, vals))
    e = {k: duplicate(d[k]) for k in rng.permutation(keys)}
    wit = dict(d=repr(d)[:1000])
    decide('dict-equal', compare_dicts, (d, e), True, wit)
    decide('elements-equal', compare_elements, (d, e), True, wit)
    decide('list-equal', compare_elements, (vals, [duplicate(v) for v in vals]), True, wit)
    k = keys[int(rng.integers(n))]
    new, what = altered(d[k])
    bad = dict(e, **{k: new})
    wit2 = dict(wit, key=k, new=repr(new), what=what)
    decide('dict-value', compare_dicts, (d, bad), False, wit2)
    decide('dict-value-unenforced', compare_dicts, (d, bad), False, wit2, len_enforced=False)
    decide('list-value', compare_elements, (vals, [bad[q] for q in keys]), False, wit2)
    more = dict(e, extra=1)
    decide('dict-extra', compare_dicts, (d, more), False, wit)
    decide('dict-extra', compare_dicts, (more, d), False, wit)
    decide('dict-extra-unenforced', compare_dicts, (d, more), True, wit, len_enforced=False)
    decide('dict-missing-unenforced', compare_dicts, (more, d), False, wit, len_enforced=False)
    renamed = dict(e)
    renamed['other'] = renamed.pop(k)
    decide('dict-renamed', compare_dicts, (d, renamed), False, wit)
    decide('list-length', compare_elements, (vals, vals[:-1]), False, wit)
    decide('list-length', compare_elements, (vals, vals + [vals[0]]), False, wit)
    ck.case('containers', (it, repr(d)[:200]))

# ---- requirements on types and lengths
TYPES = {int: lambda: 3, float: lambda: 2.5, str: lambda: 'abc', list: lambda: [1, 2],
         tuple: lambda: (1, 2, 3), dict: lambda: {1: 2}}
for it in range(ck.n(3000, 20000)):
    el = list(TYPES)[int(rng.integers(len(TYPES)))]
    n = int(rng.integers(0, 5))
    top = (list, tuple)[int(rng.integers(2))]
    v = top(TYPES[el]() for _ in range(n))
    sized = el not in (int, float)
    want = dict(top_type=top, top_length=n, element_type=el,
                element_length=len(TYPES[el]()) if sized else None)
    kw = {k: w for k, w in want.items() if w is not None and rng.integers(2)}
    wit = dict(v=v, kw=str(kw))
    with ck.guard('raised-assertions', witness=wit):
        check_assertions(v, **kw)
    ck.observe('satisfied requirements')
    wrong = {}
    k = ('top_type', 'top_length', 'element_type', 'element_length')[it % 4]
    if k == 'top_type':
        wrong[k] = (tuple, dict)[int(rng.integers(2))] if top is list else (list, dict)[
            int(rng.integers(2))]
    elif k == 'top_length':
        wrong[k] = ([j for j in (0, n - 1) if 0 <= j < n] + [n + 1])[0 if it % 8 else -1]
    elif n == 0 or k == 'element_length' and not sized:
        continue
    elif k == 'element_type':
        # one element of another type
        j = int(rng.integers(n))
        wrong[k] = el
        v = list(v)
        v[j] = TYPES[[t for t in TYPES if t is not el][int(rng.integers(len(TYPES) - 1))]]()
        v = top(v)
    else:
        j = int(rng.integers(n))
        wrong[k] = len(TYPES[el]())
        v = list(v)
        v[j] = {str: 'ab', list: [1], tuple: (), dict: {}}[el]
        if it % 8 == 3:
            v, wrong[k] = [TYPES[el]() for _ in range(n)], 0
        v = top(v)
    kw = {q: w for q, w in kw.items() if q != k and not k.startswith('element')} | wrong
    ck.raises(lambda: check_assertions(v, **kw), f'accepted-{k}',
              'an unmet requirement is accepted', dict(v=v, kw=str(kw)),
              AssertionError)
    ck.observe('unmet requirements')
    ck.case('requirements', (it, str(kw), repr(v)))

# ---- containers of test data
for it in range(ck.n(200, 2000)):
    arr = {f'A{i}': rng.normal(size=int(rng.integers(1, 9))) for i in range(3)}
    obj = {'INT': int(rng.integers(-9, 9)), 'LIST': [1, 2.5, 'x'], 'DICT': {'a': [1]},
           'TEXT': 'free text', 'NUMBER': float(rng.normal()), 'BOOL': True}
    raw = {k: v.tobytes() for k, v in arr.items()}
    raw |= {'INT': obj['INT'], 'NUMBER': obj['NUMBER'], 'TEXT': obj['TEXT'],
            'LIST': json.dumps(obj['LIST']), 'DICT': json.dumps(obj['DICT']),
            'BOOL': json.dumps(obj['BOOL'])}
    with ck.guard('raised-enumeration', witness=raw):
        E = EVs('E', raw)
        for k in raw:
            want = arr.get(k, obj.get(k))
            for name in (k, k.lower()):
                got = E.get_value(name)
                ck.expect(type(got) is type(want) and np.array_equal(got, want)
                          if k in arr else got == want and type(got) is type(want),
                          'enumeration', f'value of {k} is {got!r}, not {want!r}', repr(raw)[:500])
        i4 = rng.integers(-9, 9, 5).astype(np.int32)
        got = EVs('I', {'I': i4.tobytes()}).get_value('i', dtype_buffered=np.int32)
        ck.expect(got.dtype == np.int32 and np.array_equal(got, i4), 'enumeration-dtype',
                  'typed buffer', i4)
        d = E.get_enumeration_dict()
        ck.expect(sorted(d) == sorted(k.lower() for k in raw), 'enumeration-keys', 'keys', sorted(d))
    names = {f'p{i}': (None if rng.integers(2) else f'reason {i}') for i in range(6)}
    names['first'] = 'only reason'
    with ck.guard('raised-parameters', witness=names):
        P = EPPs("P", names)
        for k, v in names.items():
            p = P.get_pytest_parameter(k)
            marks = [(m.name, m.kwargs.get('reason')) for m in p.marks]
            ck.expect(p.values == (k,) and marks == ([] if v is None else [('xfail', v)]),
                      'parameters', f'parameter {k}: {p}', names)
        al = P.get_all_pytest_parameters()
        ck.expect([p.values[0] for p in al] == list(P.__members__), 'parameters-all',
                  'list of parameters', names)
    ck.case('test data', it)
ck.need('unmet requirements', 500)
ck.need('satisfied requirements', 500)
ck.finish()
