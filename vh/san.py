"""Running Python under the sanitizer runtimes."""

import os
import re
import shutil
import subprocess
import sys
import tempfile

from vh import build

CANARY = r'''
#include <stdlib.h>
#include <pthread.h>
int canary_oob(int n) { volatile double *p = malloc(8 * sizeof(double)); double s = p[n];
                        free((void *)p); return s > 0; }
int canary_ub(double x) { return (int)x; }
static int shared; static void *w(void *a) { shared += 1; return a; }
int canary_race(void) { pthread_t t[2]; for (int i = 0; i < 2; i++)
    pthread_create(&t[i], 0, w, 0); for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
    return shared; }
'''


def lib(name):
    return subprocess.run(['gcc', f'-print-file-name={name}'], capture_output=True,
                          text=True).stdout.strip()


def env(variant, extra_preload=()):
    e = dict(os.environ)
    name = {'asan': 'libasan.so', 'tsan': 'libtsan.so'}[variant]
    e['LD_PRELOAD'] = ' '.join([os.path.realpath(lib(name)),
                                os.path.realpath(lib('libstdc++.so.6')), *extra_preload])
    e['PYTHONMALLOC'] = 'malloc'
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=4194304:'
                         'malloc_fill_byte=190:allocator_may_return_null=1')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    e['TSAN_OPTIONS'] = ('halt_on_error=0:exitcode=0:report_thread_leaks=0:history_size=4:'
                         'ignore_noninstrumented_modules=1')
    e['PYTHONPATH'] = build.VERIF
    e['OMP_WAIT_POLICY'], e['OMP_NUM_THREADS'], e['GOMP_SPINCOUNT'] = 'passive', '3', '0'
    e['OPENBLAS_NUM_THREADS'] = e['NUMEXPR_MAX_THREADS'] = '1'
    return e


def report_of(text):
    """(kind, first frames within the code under test) of the first sanitizer report."""
    kind, frames = None, []
    for line in text.splitlines():
        m = re.search(r'AddressSanitizer: ([\w-]+)', line) or re.search(
            r'runtime error: (.*)', line) or re.search(
            r'WARNING: ThreadSanitizer: ([\w ]+)', line) or re.search(
            r'Fortran runtime error: (.*)', line)
        if m and kind is None:
            kind = m.group(1).strip()
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(\S+)', line)
        if m and kind is not None and len(frames) < 12:
            frames.append(m.group(1))
    return kind, frames


def canary(variant):
    """True when the runtimes report planted errors: shows that the monitor is watching."""
    d = tempfile.mkdtemp(prefix='vh_can_')
    try:
        src, so = os.path.join(d, 'c.c'), os.path.join(d, 'c.so')
        with open(src, 'w') as fh:
            fh.write(CANARY)
        flags = (['-fsanitize=address,undefined', '-fsanitize=float-cast-overflow',
                  '-fno-sanitize-recover=all'] if variant == 'asan' else ['-fsanitize=thread'])
        subprocess.run(['gcc', '-O1', '-g', '-fPIC', '-shared', *flags, src, '-o', so,
                        '-lpthread'], check=True, capture_output=True)
        calls = (['l.canary_oob(8)', 'l.canary_ub(ctypes.c_double(1e300))'] if variant == 'asan'
                 else ['l.canary_race()'])
        seen = 0
        for c in calls:
            r = subprocess.run([sys.executable, '-c', f'import ctypes; l = ctypes.CDLL("{so}"); '
                                + c], env=env(variant), capture_output=True, text=True)
            seen += report_of(r.stderr)[0] is not None
        return seen == len(calls), len(calls)
    finally:
        shutil.rmtree(d, ignore_errors=True)
