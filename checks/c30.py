"""C30: runs of the solver on damaged input, with failing calls, and killed runs, against the
result of the undamaged run."""
import contextlib
import hashlib
import os
import resource
import shutil
import signal
import sys
import tempfile
import time

import h5py
import numpy as np
from astropy.constants import M_sun, R_sun

from vh import build
from vh.report import Check

ck = Check('C30', 'one case = one run with one fault (damaged file, failing call, full disk, kill, second run at '
           'the same time); its result file and the files around it are compared with the undamaged run')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv',
             'histogram_maker'])
from vh import pipeline as pl  # noqa: E402
from vh.runs import TRIADS, draw_modes, make_star, read, setup, solve  # noqa: E402

rng = ck.rng()
ROOT = tempfile.mkdtemp(prefix='c30_')
SAVE = 'res'


class Injected(Exception):
    pass


def same(x, y):
    if isinstance(x, h5py.Empty) or isinstance(y, h5py.Empty):
        return type(x) is type(y)
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc' and y.dtype.kind in 'fc')


def differing(r, ref):
    """Names of datasets of a result that are not those of the reference (missing ones apart)."""
    return sorted(q for q in r[0] if q not in ref[0] or not same(r[0][q], ref[0][q]))


def quieted(r, ref):
    """Whether every number is that of the reference or nan (or, in a triad that the checks no longer accept,
    zero, as in every rejected triad), and no flag was raised."""
    if set(r[0]) != set(ref[0]):
        return False
    a, b = (np.asarray(z[0].get('checks/pre_checks', np.ones((0, 1)))).astype(bool) for z in (r, ref))
    rejected = np.any(b & ~a, axis=1) if a.shape == b.shape else np.zeros(0, bool)
    for q in ref[0]:
        x, y = r[0][q], ref[0][q]
        if same(x, y):
            continue
        if isinstance(x, h5py.Empty) or isinstance(y, h5py.Empty):
            return False
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind == 'b' or q.startswith('checks/'):
            # a state found unstable in the presence of nan is not reported as stable
            if np.any(x.astype(bool) & ~y.astype(bool)):
                return False
        elif x.dtype.kind in 'fc':
            ok = np.isnan(x) | (x == y)
            if x.ndim and len(x) == len(rejected):
                ok |= (x == 0) & rejected.reshape(-1, *[1] * (x.ndim - 1))
            if not np.all(ok):
                return False
        else:
            return False
    return True


class Base:
    """A star (or polytrope), its modes and inlist, and the result of the undamaged run."""

    def __init__(self, name, kind, big=False):
        self.kind = kind
        for attempt in range(60):
            self.root = os.path.join(ROOT, f'{name}_{attempt}')
            if self.draw(big):
                break
            shutil.rmtree(self.root)
        else:
            raise RuntimeError('no triad with a stationary state was drawn')

    def draw(self, big):
        kw = dict(npts=int(rng.integers(36, 60)))
        if self.kind == 'polytrope':
            mass, radius = float(rng.uniform(2, 9)), float(rng.uniform(1.5, 6))
            kw |= dict(M=mass * M_sun.cgs.value, R=radius * R_sun.cgs.value)
        P = self.P = make_star(rng, **kw)
        rot = float(rng.uniform(.01, .1)) * P.w0
        lms = TRIADS[int(rng.integers(len(TRIADS)))]
        lo = rng.integers(8, 30, size=3)
        if lms[1] == lms[2]:
            lo[2] = lo[1] + 3
        self.ranges = [(int(a), int(a) + (big and q != 1)) for q, a in enumerate(lo)]
        _, self.every = draw_modes(rng, P, lms, self.ranges, rot, self.kind != 'polytrope')
        self.lms = lms
        opts = {'coupling_coefficient.adiabatic': self.kind != 'nonadiabatic',
                'coupling_coefficient.terms_cc_conj': [True, False, False],
                'computation.integration_method': str(rng.choice(['trapz', 'simpson'])),
                'computation.parallel_mode_coupling': False, 'computation.angular.cheby_mul': 1,
                'computation.angular.use_cheby': bool(rng.random() < .2)}
        if self.kind == 'polytrope':
            opts |= {'coupling_coefficient.compute_for_polytrope': True, 'POLY_model.mass': mass,
                     'POLY_model.radius': radius,
                     'coupling_coefficient.analytic_polytrope': bool(rng.integers(2))}
        self.cheby = opts['computation.angular.use_cheby']
        T = self.T = pl.Tree(self.root)
        setup(T, lms, self.ranges, opts)
        if self.kind == 'polytrope':
            T.set('POLY_selection.specifier.modes', 'x')
        T.write_inlist('inlist')
        self.fill()
        solve(T, None, SAVE)
        f = T.files()
        if len(f) != 1:
            raise RuntimeError(f'files written: {f}')
        self.file, self.ref = f[0], read(f[0])
        k = np.abs(np.asarray(self.ref[0]['coupling/generic/|eta|'], float))
        if not np.any(k > 0):
            return False
        with open(self.file, 'rb') as fh:
            self.bytes = fh.read()
        self.before = self.listing()
        return True

    def fill(self):
        """Writes all input files; self.paths[(kind, number)] are their names."""
        T, self.paths = self.T, {}
        for q in ('ad', 'nad', 'mesa', 'pmode', 'pstruct'):
            for f in os.listdir(T.dirs[q]):
                os.remove(T.dirs[q] + f)
        for i, ((l, m, n), (_, _, _, ad, nad)) in enumerate(self.every.items()):
            if self.kind == 'polytrope':
                e = dict(ad, freq=ad['freq'] / self.P.w0)
                p = self.paths['pmode', i] = T.dirs['pmode'] + 'M8_' + pl.mode_name(e, n)
                pl.write_poly_mode(p, e)
                continue
            for q, d in (('ad', ad), ('nad', nad)):
                p = self.paths[q, i] = T.dirs[q] + 'M8_' + pl.mode_name(ad, n)
                pl.write_gyre(p, d)
        if self.kind == 'polytrope':
            p = self.paths['pstruct', 0] = T.dirs['pstruct'] + 'poly_n_3.h5'
            pl.write_poly_struct(p, self.P)
        else:
            p = self.paths['mesa', 0] = T.dirs['mesa'] + 'M8_prof.dat'
            pl.write_mesa(p, self.P.profile())

    def listing(self):
        """Digests of all files below the root but the result file."""
        out = {}
        for r, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(r, f)
                if p != self.file:
                    with open(p, 'rb') as fh:
                        out[p] = hashlib.blake2b(fh.read(), digest_size=8).digest()
        return out

    def previous(self, there):
        """Puts the result of the undamaged run where the next run saves, or nothing."""
        if there:
            with open(self.file, 'wb') as fh:
                fh.write(self.bytes)
        elif os.path.exists(self.file):
            os.remove(self.file)

    def state(self):
        """absent, unchanged (bytes), unreadable or the datasets of the result file."""
        if not os.path.exists(self.file):
            return 'absent'
        with open(self.file, 'rb') as fh:
            if fh.read() == self.bytes:
                return 'unchanged'
        try:
            return read(self.file)
        except Exception:
            return 'unreadable'

    def solve(self):
        """The exception a run ended with, or None."""
        old = os.getcwd()
        try:
            solve(self.T, None, SAVE)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not e.args:
                raise
            return e
        finally:
            os.chdir(old)
        return None

    def again(self, what, wit):
        """A run on undamaged input gives the reference, whatever happened before it."""
        self.fill()
        e = self.solve()
        s = self.state()
        ok = e is None and (s == 'unchanged' or isinstance(s, tuple) and set(s[0]) == set(self.ref[0])
                            and not differing(s, self.ref))
        ck.expect(ok, 'rerun', f'the run after {what} does not repeat the result: '
                  f'{e!r}, {s if isinstance(s, str) else differing(s, self.ref)[:4]}', wit)
        ck.observe('rerun')

    def around(self, what, wit, listing=None):
        got, want = self.listing(), listing or self.before
        bad = sorted(os.path.relpath(p, self.root) for p in set(got) ^ set(want)) + \
            sorted(os.path.relpath(p, self.root) for p in set(got) & set(want) if got[p] != want[p])
        ck.expect(not bad, 'files-around', f'{what} changed other files: {bad[:5]}', wit)

    def judge(self, what, e, there, wit, saving=False, nan=False):
        """The verdict of a run with a fault that ended with e (None: ended normally)."""
        s = self.state()
        full = s == 'unchanged' or isinstance(s, tuple) and set(s[0]) == set(self.ref[0])
        if e is None:
            if not full:
                ck.violate('silent', f'{what}: the run reports no failure, but the result is '
                           f'{s if isinstance(s, str) else "incomplete"}', wit)
            elif nan:
                ck.expect(s == 'unchanged' or quieted(s, self.ref), 'numbers-nan', f'{what}: the run gives other numbers '
                          f'than the undamaged run: {s if isinstance(s, str) else differing(s, self.ref)[:4]}', wit)
            else:
                ck.expect(s == 'unchanged' or not differing(s, self.ref), 'numbers',
                          f'{what}: the run gives other numbers: {s if isinstance(s, str) else differing(s, self.ref)[:4]}',
                          wit)
            ck.observe('irrelevant fault' if not nan or s == 'unchanged' or not differing(s, self.ref)
                       else 'result with nan')
            return
        ck.observe('failed run')
        if saving:
            ck.expect(isinstance(s, str) or not differing(s, self.ref), 'partial',
                      f'{what}: the file left behind holds other numbers: '
                      f'{differing(s, self.ref)[:4] if isinstance(s, tuple) else ""}', wit)
            if isinstance(s, tuple) and not full:
                ck.observe('partial file')
        elif there:
            ck.expect(s == 'unchanged', 'overwritten', f'{what}: the failed run changed the result of an earlier one: '
                      f'{s if isinstance(s, str) else "other datasets"}', wit)
            ck.observe('earlier result kept')
        else:
            ck.expect(s == 'absent', 'left', f'{what}: the failed run left a result', wit)


# ---------------------------------------------------------------- faults in the input files
def drop(q):
    def f(p):
        with h5py.File(p, 'r+') as h:
            if q in h:
                del h[q]
            elif q in h.attrs:
                del h.attrs[q]
    return f


def truncate(fr):
    def f(p):
        os.truncate(p, int(os.path.getsize(p) * fr))
    return f


def replace(data):
    def f(p):
        with open(p, 'wb') as fh:
            fh.write(data)
    return f


def column(q):
    def f(p):
        with open(p) as fh:
            s = fh.read().split('\n')
        i = s[5].split().index(q)
        t = s[:4] + [' '.join(w for j, w in enumerate(r.split()) if j != i) for r in s[4:]]
        with open(p, 'w') as fh:
            fh.write('\n'.join(t))
    return f


def head_only(p):
    with open(p) as fh:
        s = fh.read().split('\n')
    with open(p, 'w') as fh:
        fh.write('\n'.join(s[:int(rng.integers(1, 6))]) + '\n')


def with_nan(q, at):
    def f(p):
        with h5py.File(p, 'r+') as h:
            a = h[q][()]
            if a.dtype.names:
                a['re'][at], a['im'][at] = np.nan, np.nan
            else:
                a[at] = np.nan
            h[q][...] = a
    return f


ATTRS = ('l', 'm', 'n_pg', 'n', 'freq', 'freq_units', 'freq_frame', 'omega', 'l_i', 'M_star', 'R_star', 'L_star')
POLY = ('xi_r', 'xi_h', 'y_1', 'y_2', 'y_3', 'y_4', 'lambda', 'Gamma_1', 'x', 'V_2', 'As', 'U', 'c_1', 'l', 'm', 'n_pg',
        'freq', 'freq_units', 'freq_frame', 'omega', 'l_i')
STRUCT = ('z', 'theta', 'dtheta', 'n_poly', 'Gamma_1')
COLS = ('radius', 'brunt_N2', 'gamma_1_adDer')


def file_faults(B):
    """(description, kind of file, function of the path, whether values become nan)"""
    out = []
    garbage = rng.bytes(3000)
    if B.kind == 'polytrope':
        kinds = [('pmode', POLY), ('pstruct', STRUCT)]
    else:
        kinds = [('ad', pl.CPLX + pl.REAL + ATTRS), ('nad', pl.CPLX + pl.REAL + ATTRS)]
        out += [('lacks column ' + q, 'mesa', column(q), False) for q in COLS]
        out += [('is removed', 'mesa', os.remove, False), ('is empty', 'mesa', replace(b''), False),
                ('ends in its header', 'mesa', head_only, False)]
    for kind, names in kinds:
        out += [(f'lacks {q}', kind, drop(q), False) for q in names]
        out += [(f'is cut at {fr:.3f}', kind, truncate(fr), False)
                for fr in (0., .02, float(rng.uniform(.1, .9)), .98)]
        out += [('is removed', kind, os.remove, False), ('is garbage', kind, replace(garbage), False)]
    if B.kind != 'polytrope':
        for kind in ('ad', 'nad'):
            for q in pl.CPLX + pl.REAL:
                if q == 'lambda' and B.cheby:
                    continue                     # fits to Hough functions of nan are finite
                at = int(rng.choice([0, -1, int(rng.integers(1, 30))]))
                out.append((f'has nan in {q}[{at}]', kind, with_nan(q, at), True))
    return out


def damaged(B, n):
    faults = file_faults(B)
    # every kind of fault first, then the others in random order
    order = rng.permutation(len(faults))
    words = {}
    for i in order:
        t = faults[i][0]
        words.setdefault((faults[i][1], t[:6] if t.startswith('is') else t[:4]), i)
    own = {'adiabatic': 'ad', 'nonadiabatic': 'nad'}.get(B.kind, 'pmode')
    first = [i for i in order if faults[i][1] == own and faults[i][0].startswith('lacks')]
    first += [i for i in words.values() if i not in first]
    order = [*first, *(i for i in order if i not in first)]
    for count, i in enumerate(order[:len(first) + n]):
        text, kind, f, nan = faults[i]
        nr = int(rng.integers(sum(q == kind for q, _ in B.paths)))
        B.fill()
        there = bool(rng.random() < .5)
        B.previous(there)
        p = B.paths[kind, nr]
        f(p)
        what = f'{kind} file {os.path.basename(p)} {text}'
        wit = dict(kind=B.kind, fault=what, earlier_result=there, lms=B.lms, ranges=B.ranges)
        ck.case(f'{kind} file ' + (' '.join(text.split()[:2]) if text.startswith('is') else
                                   'with nan' if nan else 'incomplete'), wit)
        now = B.listing()
        e = B.solve()
        B.judge(what, e, there, wit, nan=nan)
        B.around(what, wit, now)
        if count % 12 == 5:
            B.again(what, wit)


# ---------------------------------------------------------------- failing calls
CODE = build.REPO


class Calls:
    """Counts the calls of functions of the repository; raises (or kills) at the k-th."""

    def __init__(self, k=None, act=None):
        self.k, self.act, self.names, self.at = k, act, [], None

    def __call__(self, frame, event, arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(CODE):
            return
        self.names.append(frame.f_code.co_qualname)
        if self.k == len(self.names):
            self.at = self.names[-1]
            sys.setprofile(None)
            self.act()

    @contextlib.contextmanager
    def on(self):
        sys.setprofile(self)
        try:
            yield self
        finally:
            sys.setprofile(None)


def raiser(e):
    def act():
        raise e
    return act


def positions(B):
    B.fill()
    B.previous(False)
    c = Calls()
    with c.on():
        B.solve()
    pos = {}
    for i, nm in enumerate(c.names):
        pos.setdefault(nm, []).append(i + 1)
    first = next((i + 1 for i, nm in enumerate(c.names) if nm.startswith('HDF5Saver')), len(c.names))
    return pos, first, len(c.names)


def failing_calls(B, n):
    pos, _, total = positions(B)
    names = list(pos)
    saving = [q for q in names if 'Saver' in q]
    pick = [names[i] for i in rng.permutation(len(names))][:n] + [saving[i] for i in rng.permutation(len(saving))][:n // 6]
    for count, nm in enumerate(pick):
        k = int(rng.choice(pos[nm]))
        exc = [Injected('injected'), MemoryError('injected'), KeyboardInterrupt('injected'),
               OSError(5, 'Input/output error')][count % 4]
        B.fill()
        there = bool(rng.random() < .5)
        B.previous(there)
        c = Calls(k, raiser(exc))
        with c.on():
            e = B.solve()
        if c.at is None:
            continue
        what = f'{type(exc).__name__} in {c.at} (call {k} of {total})'
        wit = dict(kind=B.kind, fault=what, earlier_result=there, lms=B.lms, ranges=B.ranges)
        ck.case(f'{type(exc).__name__} in a call', wit)
        # once the file is open for saving it may be incomplete
        B.judge(what, e, there, wit, saving=any('Saver' in q for q in c.names))
        B.around(what, wit)
        if count % 4 == 2:
            B.again(what, wit)
    ck.observe('functions in which calls failed', len(set(pick)))


def failing_reads(B, n):
    """Opening or reading an input file fails once (EIO)."""
    import builtins
    opens, reads = [], []
    old = builtins.open, h5py.File.__init__, h5py.Dataset.__getitem__

    def patched(limit):
        seen = [0]

        def hit(what):
            seen[0] += 1
            if seen[0] == limit:
                raise OSError(5, 'Input/output error')

        def my_open(f, mode='r', *a, **kw):
            if isinstance(f, (str, os.PathLike)) and str(f).startswith(B.root) and 'r' in mode:
                hit(f)
            return old[0](f, mode, *a, **kw)

        def my_init(self, name, mode='r', *a, **kw):
            if mode == 'r':
                hit(name)
            return old[1](self, name, mode, *a, **kw)

        def my_get(self, *a, **kw):
            hit(self)
            return old[2](self, *a, **kw)
        return seen, my_open, my_init, my_get

    def run(limit):
        seen, builtins.open, h5py.File.__init__, h5py.Dataset.__getitem__ = patched(limit)
        try:
            return B.solve(), seen[0]
        finally:
            builtins.open, h5py.File.__init__, h5py.Dataset.__getitem__ = old
    B.fill()
    B.previous(False)
    e, total = run(-1)
    if e is not None or not total:
        return
    for k in sorted(rng.choice(np.arange(1, total + 1), min(n, total), replace=False)):
        there = bool(rng.random() < .5)
        B.previous(there)
        e, seen = run(int(k))
        if seen < k:
            continue
        what = f'input operation {k} of {total} fails'
        wit = dict(kind=B.kind, fault=what, earlier_result=there, lms=B.lms, ranges=B.ranges)
        ck.case('failing read', wit)
        B.judge(what, e, there, wit)
        B.around(what, wit)
    B.again('failing reads', dict(kind=B.kind))


# ---------------------------------------------------------------- processes that end
def child(f, limit=120):
    """Wait status of a child that runs f (None: it did not end in time)."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            f()
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    return pid, time.time() + limit


def wait(job):
    pid, end = job
    while time.time() < end:
        got, st = os.waitpid(pid, os.WNOHANG)
        if got:
            return st
        time.sleep(.005)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def die():
    os.kill(os.getpid(), signal.SIGKILL)
    time.sleep(60)


def killed(B, n):
    pos, first, total = positions(B)
    late = [i for q, v in pos.items() if 'Saver' in q for i in v]
    for k in range(n):
        at = int(rng.integers(1, total + 1)) if k % 2 else int(rng.choice(late or [total]))
        B.fill()
        there = bool(rng.random() < .5)
        B.previous(there)

        def f():
            with Calls(at, die).on():
                if B.solve() is not None:
                    raise RuntimeError
        st = wait(child(f))
        what = f'kill at call {at} of {total}'
        wit = dict(kind=B.kind, fault=what, earlier_result=there, lms=B.lms, ranges=B.ranges)
        if st is None:
            ck.observe('child without end')
            continue
        ck.case('kill while saving' if at >= first else 'kill', wit)
        killed_ = os.WIFSIGNALED(st)
        B.judge(what, RuntimeError() if killed_ or os.WEXITSTATUS(st) else None, there, wit, saving=at >= first)
        B.around(what, wit)
        B.again(what, wit)


def full_disk(B, n):
    size = len(B.bytes)
    for k in range(n):
        lim = int(rng.choice([0, 100, 800, 2048, size - 1, int(rng.integers(1, size)), int(rng.integers(1, size)),
                              size - int(rng.integers(2, 400))]))
        B.fill()
        B.previous(False)

        def f():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            if B.solve() is not None:
                raise RuntimeError
        st = wait(child(f))
        what = f'no space beyond {lim} of {size} bytes'
        wit = dict(kind=B.kind, fault=what, lms=B.lms, ranges=B.ranges)
        if st is None:
            ck.observe('child without end')
            continue
        ck.case('full disk', wit)
        ok = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        B.judge(what, None if ok else RuntimeError(), False, wit, saving=True)
        B.around(what, wit)
        B.again(what, wit)


def together(B, C, n):
    """Runs of two inlists at the same time."""
    for k in range(n):
        for q in (B, C):
            q.fill()
            q.previous(False)
        lag = float(rng.choice([0., 0., rng.uniform(0, .5)]))

        def f(q):
            def g():
                if q.solve() is not None:
                    raise RuntimeError
            return g
        jobs = [child(f(B))]
        time.sleep(lag)
        jobs.append(child(f(C)))
        st = [wait(j) for j in jobs]
        wit = dict(kinds=(B.kind, C.kind), lag=lag)
        if None in st:
            ck.observe('child without end')
            continue
        ck.case('two runs together', (wit, k))
        for q, s in zip((B, C), st):
            q.judge('a run beside another one', None if s == 0 else RuntimeError(), False, wit, saving=True)
            ck.expect(s == 0, 'together', 'a run beside another one failed', wit)


# ---------------------------------------------------------------- rows
def by_triad(r):
    n = [tuple(int(v) for v in x) for x in r[0]['quantum_numbers/n']]
    return {k: {q: np.asarray(v)[i] for q, v in r[0].items() if not isinstance(v, h5py.Empty) and np.ndim(v)
                and len(v) == len(n)} for i, k in enumerate(n)}


def subsets(B):
    """A triad has the same numbers whichever other triads its run computes."""
    full = by_triad(B.ref)
    places = ('parent', 'daughter_1', 'daughter_2')
    for place in (0, 2):
        for n in range(B.ranges[place][0], B.ranges[place][1] + 1):
            B.fill()
            B.previous(False)
            rg = list(B.ranges)
            rg[place] = (n, n)
            for q, (a, b) in zip(places, rg):
                B.T.set(f'mode_info.{q}.n.low', a)
                B.T.set(f'mode_info.{q}.n.high', b)
            B.T.write_inlist('inlist')
            e = B.solve()
            s = B.state()
            wit = dict(kind=B.kind, lms=B.lms, ranges=B.ranges, only=(places[place], n))
            ck.case('part of the triads', wit)
            if e is not None or not isinstance(s, tuple):
                ck.violate('subset', f'run of part of the triads: {e!r}, {s if isinstance(s, str) else ""}', wit)
                continue
            got = by_triad(s)
            want = {k for k in full if k[place] == n}
            bad = sorted({q for k in want & set(got) for q in full[k]
                          if q not in got[k] or not same(got[k][q], full[k][q])})
            ck.expect(set(got) == want and not bad, 'subset', f'triads {sorted(got)} instead of {sorted(want)}, or '
                      f'other numbers than in the run of all: {bad[:5]}', wit)
    for q, (a, b) in zip(places, B.ranges):
        B.T.set(f'mode_info.{q}.n.low', a)
        B.T.set(f'mode_info.{q}.n.high', b)
    B.T.write_inlist('inlist')


try:
    for it in range(ck.n(1, 2)):
        bases = [Base(f'{kind}{it}', kind) for kind in ('adiabatic', 'nonadiabatic', 'polytrope')]
        for b in bases:
            b.again('the first run', dict(kind=b.kind))
            killed(b, ck.n(2, 3))
            full_disk(b, ck.n(1, 2))
        together(bases[0], bases[1], ck.n(1, 2))
        together(bases[0], bases[2], ck.n(1, 2))
        for b in bases:
            damaged(b, ck.n(14 if b.kind != 'polytrope' else 6, 60))
            failing_calls(b, ck.n(20, 50))
            failing_reads(b, ck.n(8, 16))
        for b in bases:
            shutil.rmtree(b.root)
        big = Base(f'big{it}', str(rng.choice(['adiabatic', 'nonadiabatic', 'polytrope'])), big=True)
        subsets(big)
        shutil.rmtree(big.root)
finally:
    os.chdir('/')
    shutil.rmtree(ROOT, ignore_errors=True)
ck.need('failed run', 30)
ck.need('rerun', 10)
ck.finish()
