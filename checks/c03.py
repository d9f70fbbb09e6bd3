"""C03: parallel switches of the native kernels under ThreadSanitizer and seeded schedules."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from vh import build, san
from vh.report import Check

ck = Check('C03', 'one case = one call of a kernel with its parallel switch on, for three thread '
           'counts out of 1..16, against the serial result: once with the thread sanitizer over a '
           'pthread OpenMP runtime with seeded start orders and delays, once with libgomp, longer '
           'arrays and concurrent Python threads')
PKGS = ['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'histogram_maker']
build.build(build.COMPILED, 'plain')
build.build(PKGS, 'tsan')
# the Fortran package has no parallel code: the worker imports its plain build
tmp = tempfile.mkdtemp(prefix='vh_c03_')


def environment(variant):
    if variant == 'plain':
        e = dict(os.environ, PYTHONPATH=build.VERIF, OMP_WAIT_POLICY='passive')
        return e
    e = san.env('tsan', [os.path.join(tmp, 'shim.so')])
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_thread_leaks=0:' \
        'ignore_noninstrumented_modules=1'
    e['PYTHONPATH'] = build.VERIF + ':' + os.path.join(build.BUILD, 'plain',
                                                       'fornberg-num-deriv', 'build', 'lib')
    return e


def start(w, variant, n, at):
    log, j = os.path.join(tmp, f'err{w}-{at}'), os.path.join(tmp, f'journal{w}')
    with open(log, 'w') as err:
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vh.races', variant,
                              str(ck.seed * 100 + w), str(n), str(at), j],
                             env=environment(variant), cwd=build.VERIF,
                             stdout=subprocess.DEVNULL, stderr=err)
    return p, log, j


def last_case(j):
    case, ended, finished = None, True, False
    if os.path.exists(j):
        with open(j) as fh:
            for line in fh:
                if line.startswith('B '):
                    _, i, rest = line.split(' ', 2)
                    case, ended = (int(i), rest.strip()), False
                elif line.startswith('E '):
                    ended = True
                elif line.startswith('END'):
                    finished = True
    return case, ended, finished


JOBS = {0: ('tsan', ck.n(700, 12000)), 1: ('tsan', ck.n(700, 12000)),
        2: ('plain', ck.n(800, 15000))}
try:
    subprocess.run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-fsanitize=thread',
                    os.path.join(build.VERIF, 'vh', 'gomp_shim.c'), '-o',
                    os.path.join(tmp, 'shim.so'), '-lpthread'], check=True)
    ok, planted = san.canary('tsan')
    if not ok:
        ck.inconc.append('the thread sanitizer does not report a planted race')
    ck.observe('planted races reported by the runtime', planted)
    running = {w: start(w, *JOBS[w], 0) for w in JOBS}
    restarts, nrep = dict.fromkeys(JOBS, 0), 0
    while running:
        for w, (p, log, j) in list(running.items()):
            try:
                rc = p.wait(0.2)
            except subprocess.TimeoutExpired:
                continue
            del running[w]
            case, ended, finished = last_case(j)
            if finished and rc == 0:
                continue
            with open(log) as fh:
                text = fh.read()
            kind, frames = san.report_of(text)
            if case is None or (ended and kind is None):
                ck.inconc.append(f'worker {w} stopped outside a case (status {rc}): '
                                 + text[-300:])
                continue
            name, desc = json.loads(case[1])
            what = kind or {-14: 'hang'}.get(rc, f'death of the process ({rc})')
            own = [f for f in frames if 'Py' not in f][:3]
            nrep += 1
            ck.violate(f'{name}-{re.sub("[^A-Za-z-]+", "_", what)[:40]}',
                       f'{name}: {what} in {own}', {'case': desc, 'report': text[:3000]})
            restarts[w] += 1
            if restarts[w] < 25:
                running[w] = start(w, *JOBS[w], case[0] + 1)
    for w, (variant, _) in JOBS.items():
        name = desc = None
        if not os.path.exists(os.path.join(tmp, f'journal{w}')):
            continue
        with open(os.path.join(tmp, f'journal{w}')) as fh:
            for line in fh:
                if line.startswith('B '):
                    name, desc = json.loads(line.split(' ', 2)[2])
                elif line.startswith('E '):
                    schedules, bad = json.loads(line.split(' ', 2)[2])
                    ck.case(f'{variant}: {name}', (w, json.dumps(desc, sort_keys=True)), desc)
                    ck.observe('parallel calls', schedules)
                    for b in bad:
                        key, text = b.split(': ', 1)
                        ck.violate(f'{name}-{key}', f'{name} ({variant}): {text}', desc)
                elif line.startswith('END '):
                    c = json.loads(line[4:])
                    for k, v in zip(('parallel regions', 'threads in them', 'barriers',
                                     'dynamic chunks'), c):
                        if v:
                            ck.observe(f'{k} under the thread sanitizer', v)
    ck.observe('thread sanitizer reports', nrep)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
if not ck.violations:
    ck.need('parallel regions under the thread sanitizer', 500)
    for k in ('ld', 'disc', 'widths', 'bin', 'cf', 'prob', 'dens', 'vdens', 'jacky', 'vjacky'):
        ck.need(f'tsan: {k}', 10)
        ck.need(f'plain: {k}', 10)
ck.finish()
