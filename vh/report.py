"""Check bookkeeping: seeded randomness, counted observations, three-valued verdicts, known
findings, replay files and the evidence file."""

import atexit
import collections
import contextlib
import hashlib
import json
import logging
import os
import re
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def _plain(x):
    """JSON-able, compact rendering of a witness."""
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {'shape': list(x.shape), 'dtype': str(x.dtype),
                    'head': _plain(x.ravel()[:16].tolist()),
                    'crc': zlib.crc32(np.ascontiguousarray(x).tobytes())}
        return _plain(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return repr(complex(x))
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return x.decode('latin1')
    return repr(x)[:300]


class Check:
    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.kinds = collections.Counter()
        self.samples, self._sampled = [], collections.Counter()
        self.violations = {}
        self.known_hits = {}
        self.inconc = []
        self.known = self._load_known()
        logging.disable(logging.CRITICAL)
        self._pid = os.getpid()
        atexit.register(self._stopped)

    def _stopped(self):
        """The process ends before finish(): code under test ended it (sys.exit, exception)."""
        if self._pid != os.getpid():
            return
        e = getattr(sys, 'last_value', None)
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or getattr(e, 'not_a_verdict', False):
            return
        tb = ''.join(traceback.format_exception(e)) if e is not None else ''
        self.violate('stopped', 'the check was ended by the code under test: '
                     + (f'{type(e).__name__}: {str(e)[:300]}' if e is not None else 'sys.exit'),
                     {'traceback': tb[-3000:]})
        self._report()
        os._exit(1)

    # ---- randomness and sizes
    def rng(self, name=''):
        return np.random.default_rng([self.seed & 0xFFFFFFFF, zlib.crc32(self.pid.encode()),
                                      zlib.crc32(name.encode())])

    def n(self, quick, thorough=None):
        """Case count for the tier."""
        return (thorough if thorough is not None else 10 * quick) if self.thorough else quick

    # ---- known findings
    def _load_known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for line in fh:
                    m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                    if m and m.group(1) == self.pid:
                        out[m.group(2)] = m.group(3)
        return out

    # ---- observations
    def case(self, kind, ident=None, sample=None, nontrivial=True):
        """Counts one evaluation; `ident` is anything that identifies the case."""
        self.evaluations += 1
        self.kinds[kind] += 1
        if nontrivial:
            raw = repr(_plain(ident)) if ident is not None else f'{kind}#{self.kinds[kind]}'
            self.distinct.add(hashlib.blake2b((kind + raw).encode(), digest_size=8).digest())
        if self._sampled[kind] < 2 and len(self.samples) < 16:
            self._sampled[kind] += 1
            self.samples.append({'kind': kind,
                                 'case': _plain(sample if sample is not None else ident)})

    def observe(self, kind, count=1):
        """Counts monitor observations that are not cases of their own."""
        self.kinds[kind] += count

    # ---- verdicts
    def violate(self, key, message, witness=None):
        key = re.sub(r'\s+', '_', str(key))
        if key in self.known:
            self.known_hits[key] = self.known[key]
            return
        if key in self.violations:
            self.violations[key]['count'] += 1
            return
        path = os.path.join(VERIF, 'replay', re.sub(r'[^A-Za-z0-9_.-]', '_',
                                                    f'{self.pid}-{key}')[:120] + '.json')
        self.violations[key] = {'message': message, 'path': path, 'count': 1}
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fh:
            json.dump({'property': self.pid, 'key': key, 'message': message,
                       'seed': self.seed, 'tier': self.tier, 'witness': _plain(witness),
                       'replay': f'VERIF_SEED={self.seed} bash run.sh {self.pid} {self.tier}'},
                      fh, indent=1)

    def expect(self, cond, key, message, witness=None):
        if not bool(cond):
            self.violate(key, message, witness)
            return False
        return True

    def close(self, got, want, key, message, witness=None, rtol=1e-9, atol=0.0, scale=None):
        """got equals want within rtol*scale + atol (NaN patterns must agree)."""
        got, want = np.asarray(got), np.asarray(want)
        wit = {'got': got, 'want': want, 'case': witness}
        if got.shape != want.shape:
            self.violate(key, f'{message}: shape {got.shape} instead of {want.shape}', wit)
            return False
        try:
            gn, wn = np.isnan(got), np.isnan(want)
        except TypeError:
            self.violate(key, f'{message}: value of type {got.dtype}', wit)
            return False
        if not np.array_equal(gn, wn):
            self.violate(key, f'{message}: NaN pattern differs', wit)
            return False
        with np.errstate(all='ignore'):
            fin = ~gn
            if got.ndim == 0:
                g, w = got[fin], want[fin]
            else:
                g, w = got[fin], want[fin]
            inf = ~np.isfinite(w)
            if inf.any() and not np.array_equal(g[inf], w[inf]):
                self.violate(key, f'{message}: infinite values differ', wit)
                return False
            g, w = g[~inf], w[~inf]
            if g.size == 0:
                return True
            sc = np.max(np.abs(w)) if scale is None else scale
            d = np.abs(g - w)
            bad = ~(d <= rtol * sc + atol)
        if bad.any():
            self.violate(key, f'{message}: largest deviation {d.max():.3e} '
                              f'(allowed {np.max(rtol * sc + atol):.3e})', wit)
            return False
        return True

    @contextlib.contextmanager
    def guard(self, key, message='valid input rejected', witness=None):
        """An exception inside is a violation: the property says that the operation succeeds."""
        try:
            yield
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa: BLE001 (the code under test may sys.exit)
            tb = traceback.format_exc()
            self.violate(key, f'{message}: {type(e).__name__}: {str(e)[:300]}',
                         {'case': witness, 'traceback': tb[-3000:]})

    def raises(self, fn, key, message, witness=None, exc=(Exception, SystemExit)):
        try:
            fn()
        except exc:
            return True
        self.violate(key, message, witness)
        return False

    def inconclusive(self, message):
        self.inconc.append(message)

    # ---- the end
    def need(self, kind, minimum):
        if self.kinds[kind] < minimum:
            self.inconclusive(f'only {self.kinds[kind]} observations of "{kind}" '
                              f'(at least {minimum} needed)')

    def finish(self, extra=None):
        wall = time.time() - self.t0
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
               'rule': self.rule, 'samples': self.samples,
               'observations': dict(self.kinds)}
        if extra:
            cov.update(_plain(extra))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print(f'{self.pid} {self.tier} seed={self.seed}: {self.evaluations} evaluations, '
              f'{len(self.distinct)} distinct, {wall:.1f} s; '
              + ', '.join(f'{k}={v}' for k, v in sorted(self.kinds.items())))
        atexit.unregister(self._stopped)
        self._report()
        if self.violations:
            sys.exit(1)
        if self.inconc or not self.evaluations:
            for m in self.inconc or ['nothing was observed']:
                print(f'INCONCLUSIVE: {m}')
            sys.exit(2)
        sys.exit(0)

    def _report(self):
        for key, what in sorted(self.known_hits.items()):
            print(f'KNOWN-FINDING: property={self.pid} {key}: {what}')
        for key, v in sorted(self.violations.items()):
            print(f'  {key} (x{v["count"]}): {v["message"]}')
            print(f'VIOLATION property={self.pid} replay={v["path"]}')
        sys.stdout.flush()
