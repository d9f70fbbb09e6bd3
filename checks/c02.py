"""C02: the native kernels under AddressSanitizer and UndefinedBehaviorSanitizer."""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from vh import build, san
from vh.report import Check

ck = Check('C02', 'one case = one call of a native kernel (or of a Python function that hands '
           'arrays to one) with generated lengths, memory layouts, values and options, in a '
           'process whose kernels are built with address, undefined-behaviour and float-cast '
           'sanitizers; heap blocks end at the arrays, guard bands and a sentinel watch the rest')
build.build(build.COMPILED, 'asan')

ok, planted = san.canary('asan')
if not ok:
    ck.inconc.append('the sanitizer runtimes do not report planted errors')
ck.observe('planted errors reported by the runtimes', planted)

WORKERS, PER = 4, ck.n(8000, 200000)
tmp = tempfile.mkdtemp(prefix='vh_c02_')


def start(w, at):
    log = os.path.join(tmp, f'err{w}-{at}')
    j = os.path.join(tmp, f'journal{w}')
    with open(log, 'w') as err:
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vh.native', 'asan',
                              str(ck.seed * 100 + w), str(PER), str(at), j],
                             env=san.env('asan'), cwd=build.VERIF, stdout=subprocess.DEVNULL,
                             stderr=err)
    return p, log, j


def last_case(j):
    case, ended, finished = None, True, False
    if os.path.exists(j):
        with open(j) as fh:
            for line in fh:
                if line.startswith('B '):
                    _, i, rest = line.split(' ', 2)
                    case, ended = (int(i), rest.strip()), False
                elif line.startswith('E '):
                    ended = True
                elif line.startswith('END'):
                    finished = True
    return case, ended, finished


try:
    running = {w: start(w, 0) for w in range(WORKERS)}
    reports = collections.Counter()
    restarts = collections.Counter()
    while running:
        for w, (p, log, j) in list(running.items()):
            try:
                rc = p.wait(0.2)
            except subprocess.TimeoutExpired:
                continue
            del running[w]
            case, ended, finished = last_case(j)
            if finished and rc == 0:
                continue
            with open(log) as fh:
                text = fh.read()
            if case is None or ended:
                ck.inconc.append(f'worker {w} stopped outside a case (status {rc}): '
                                 + text[-300:])
                continue
            kind, frames = san.report_of(text)
            name, desc = json.loads(case[1])
            own = [f for f in frames if 'Python' not in f and 'PyEval' not in f][:3]
            what = kind or {-14: 'hang', 124: 'hang'}.get(rc, f'death of the process ({rc})')
            reports[name + what] += 1
            ck.violate(f'{name}-{re.sub("[^A-Za-z-]+", "_", what)[:40]}',
                       f'{name}: {what} in {own}',
                       {'case': desc, 'report': text[:3000],
                        'rerun': f'VH_ONLY={case[0]} with the environment of vh/san.py: python '
                                 f'-m vh.native asan {ck.seed * 100 + w} {PER} {case[0]} J'})
            restarts[w] += 1
            if restarts[w] < 25:
                running[w] = start(w, case[0] + 1)
    for w in range(WORKERS):
        name = desc = None
        with open(os.path.join(tmp, f'journal{w}')) as fh:
            for line in fh:
                if line.startswith('B '):
                    name, desc = json.loads(line.split(' ', 2)[2])
                elif line.startswith('E '):
                    outcome, bad = json.loads(line.split(' ', 2)[2])
                    ck.case(name.split('.')[0] if '.' in name else 'histogram',
                            (name, json.dumps(desc, sort_keys=True)), {'kernel': name, **desc})
                    ck.observe(f'{name}: {outcome}')
                    for b in bad:
                        key, text = b.split(': ', 1)
                        ck.violate(f'{name}-{key}', f'{name}: {text}', desc)
    ck.observe('sanitizer reports', sum(reports.values()))
finally:
    shutil.rmtree(tmp, ignore_errors=True)

for kind in ('quad', 'ld', 'disc', 'fornberg', 'histogram', 'api'):
    ck.need(kind, PER // 10)
ck.finish()
