"""Builds the compiled packages of /repo (working tree) into /verif/build/<variant>, and
arranges sys.path so that the packages under test are imported from there and from /repo.

Every variant directory is a mirror of the five packages with compiled modules; Cython and
f2py write beside their sources, so nothing is ever built inside /repo. A package is rebuilt
when the content of its build inputs changed."""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VH_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
COMPILED = ['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator',
            'histogram_maker', 'fornberg-num-deriv']
PURE = ['aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools', 'py-combinations',
        'pytest-util-tools', 'util-tools']
SISTERS = {'cpp-disc-integrator': ['cpp-numintegrator', 'cpp-ld-funcs']}
INPUTS = ('.pyx', '.pxd', '.pxi', '.cpp', '.h', '.hpp', '.f90', '.f2py_f2cmap',
          '_custom_build.py', 'setup.py', 'pyproject.toml')
PY = sys.executable


class BuildError(RuntimeError):
    not_a_verdict = True


def _digest(pkg, variant):
    h = hashlib.sha256(variant.encode())
    for d in [pkg, *SISTERS.get(pkg, [])]:
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(INPUTS) and '_tests.cpp' not in f:
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read() + b'\0')
    for s in (__file__, os.path.join(os.path.dirname(__file__), '_build_one.py')):
        with open(s, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(pkgs, variant='plain'):
    """Builds packages (with their sisters mirrored) and returns {pkg: mirror directory}."""
    base = os.path.join(BUILD, variant)
    os.makedirs(os.path.join(base, 'log'), exist_ok=True)
    with open(os.path.join(base, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror = set(pkgs)
        for p in pkgs:
            mirror.update(SISTERS.get(p, []))
        for p in sorted(mirror):
            r = subprocess.run(
                ['rsync', '-rlp', '--checksum', '--delete', '--exclude', '__pycache__',
                 '--filter', 'P /build/', '--filter', 'P *.so', '--filter', 'P .stamp',
                 '--exclude', '/build/', '--exclude', '*.so',
                 os.path.join(REPO, p) + '/', os.path.join(base, p) + '/'],
                capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr)
        running = {}
        for p in pkgs:
            stamp = os.path.join(base, p, '.stamp')
            want = _digest(p, variant)
            have = open(stamp).read() if os.path.exists(stamp) else ''
            if have == want:
                continue
            if have:
                os.remove(stamp)
            log = open(os.path.join(base, 'log', p + '.log'), 'w')
            proc = subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(VERIF, 'vh', '_build_one.py'),
                 os.path.join(base, p), variant], stdout=log, stderr=subprocess.STDOUT)
            running[p] = (proc, stamp, want)
        for p, (proc, stamp, want) in running.items():
            if proc.wait():
                with open(os.path.join(base, 'log', p + '.log')) as fh:
                    raise BuildError(f'{p} ({variant}) does not build:\n' + fh.read()[-3000:])
            with open(stamp, 'w') as fh:
                fh.write(want)
    return {p: os.path.join(base, p) for p in mirror}


def import_path(variant='plain'):
    base = os.path.join(BUILD, variant)
    path = [os.path.join(base, p) for p in COMPILED[:4]]
    path.append(os.path.join(base, 'fornberg-num-deriv', 'build', 'lib'))
    path += [os.path.join(REPO, p) for p in PURE]
    path.append(os.path.join(VERIF, 'vh', 'stubs'))
    return path


def setup(pkgs=(), variant='plain'):
    """Builds and puts the packages under test on sys.path."""
    if pkgs:
        build(list(pkgs), variant)
    sys.dont_write_bytecode = True
    for p in reversed(import_path(variant)):
        if p not in sys.path:
            sys.path.insert(1, p)


if __name__ == '__main__':
    build(COMPILED, sys.argv[1] if len(sys.argv) > 1 else 'plain')
    print('built')
