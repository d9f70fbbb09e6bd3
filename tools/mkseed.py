"""Builds seeded/<id>/ from a description file and validates it in /repo (applied, built, tested, undone).

usage: mkseed.py SPEC.py   where SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks,
demo=python text (exit code 0 = property holds), files={name: text})]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '''#!/bin/bash
# exit 0: the property holds on /repo; nonzero: it is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"; B="$R/_build"
export PATH=/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4
P=$HERE:$B/src/cpp-numintegrator:$B/src/cpp-ld-funcs:$B/src/cpp-disc-integrator:$B/src/histogram_maker:$B/src/fornberg-num-deriv/build/lib
P=$P:$R/aesolver:$R/gyre-tools:$R/hough-func-tools:$R/num-tools:$R/py-combinations:$R/pytest-util-tools:$R/util-tools
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
cd "$T" && MPLCONFIGDIR="$T" PYTHONPATH=$P timeout 250 python -W ignore "$HERE/demo.py"
'''
POLLER = 'class Poller:  # stand-in for a package that is not installed here\n    pass\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    out = '/tmp/seed_tests.json'
    sh(f'bash /opt/vp/test.sh {out}')
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base.get('stable', base) if isinstance(base, dict) else base
    passed = set(res.get('passed', res.get('pass', [])))
    return [t for t in base if t not in passed]


def one(s):
    d = f'{ROOT}/seeded/{s["id"]}'
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    try:
        for f, old, new in s['edits']:
            p = f'/repo/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return f'{s["id"]}: pattern occurs {t.count(old)} times in {f}: {old[:50]!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(ENV)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(s['demo'])
        for n, t in s.get('files', {}).items():
            open(f'{d}/{n}', 'w').write(t)
        if 'aesolver' in s['demo']:
            open(f'{d}/simple_poller.py', 'w').write(POLLER)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            return f'{s["id"]}: build fails {b.stdout[-300:]} {b.stderr[-300:]}'
        miss = stable()
        if miss:
            return f'{s["id"]}: tests fail: {miss[:4]} ({len(miss)})'
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r.returncode == 0:
            return f'{s["id"]}: demo passes with the patch: {r.stdout[-300:]}'
        msg = (r.stdout + r.stderr)[-200:]
        c = sh(f'bash {ROOT}/run.sh {s["property"]} quick', cwd=ROOT)
        caught = c.returncode == 1 and f'VIOLATION property={s["property"]}' in c.stdout
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    r = sh(f'bash {d}/demo.sh', cwd='/repo')
    if r.returncode:
        return f'{s["id"]}: demo fails on the clean tree: {(r.stdout + r.stderr)[-400:]}'
    return f'{s["id"]} ({s["property"]}): OK caught={caught} [{msg.strip()[-90:]}] ' + ('' if caught else f'rc={c.returncode} {c.stdout[-200:]}')


if __name__ == '__main__':
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and s['id'] not in only:
            continue
        r = one(s)
        ok = ': OK' in r
        if not ok:
            shutil.rmtree(f'{ROOT}/seeded/{s["id"]}', ignore_errors=True)
        print(r, flush=True)
