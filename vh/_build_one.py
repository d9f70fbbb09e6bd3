"""_build_one.py MIRROR_DIR VARIANT: builds the compiled modules of one mirrored package in
place, with the Extension lists of the project's own _custom_build.py (or, for the Fortran
package, its own f2py command), plus the flags of the variant."""

import glob
import os
import shutil
import subprocess
import sys

EXTRA = {
    'plain': [],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fsanitize=float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
             # the part of a std::vector beyond its size counts as outside
             '-D_GLIBCXX_SANITIZE_VECTOR=1'],
    'tsan': ['-O1', '-g', '-fsanitize=thread'],
}
LINK = {'plain': [], 'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread']}


def main():
    base, variant = sys.argv[1], sys.argv[2]
    pkg = os.path.basename(base)
    os.chdir(base)
    shutil.rmtree(os.path.join(base, 'build'), ignore_errors=True)
    for so in glob.glob('**/*.so', recursive=True):
        os.remove(so)
    for pyx in glob.glob('**/*.pyx', recursive=True):
        for ext in ('.c', '.cpp'):
            if os.path.exists(pyx[:-4] + ext):
                os.remove(pyx[:-4] + ext)
    if pkg == 'fornberg-num-deriv':
        if variant != 'asan':  # no parallel code: the thread sanitizer needs no flags
            subprocess.run([sys.executable, 'setup.py', 'build', '--build-base', 'build',
                            '--build-lib', 'build/lib'], check=True)
        else:
            fm = './fornberg_num_deriv/'
            flags = ('-O1 -g -fcheck=bounds -fsanitize=address,undefined '
                     '-fno-sanitize-recover=undefined -fno-omit-frame-pointer')
            env = dict(os.environ, CFLAGS='-g -O1', LDFLAGS='-fsanitize=address,undefined',
                       FFLAGS=flags)
            os.makedirs('build/lib/myfnd', exist_ok=True)
            subprocess.run([sys.executable, '-m', 'numpy.f2py', '-c', '-m', 'fnd',
                            fm + 'fornberg.f90', fm + 'f90wrap_fornberg.f90',
                            f'--f90flags={flags}'], check=True, env=env)
            for f in glob.glob('fnd*.so'):
                shutil.move(f, 'build/lib/myfnd/')
            shutil.copy('__init__.py' if os.path.exists('__init__.py')
                        else 'fornberg_num_deriv/__init__.py', 'build/lib/myfnd/__init__.py')
        found = glob.glob('build/lib/myfnd/fnd*.so')
    else:
        sys.path.insert(0, os.getcwd())
        import _custom_build
        from setuptools import setup
        import setuptools.command.build_ext as be

        def get_install_paths(self):
            ni, ld = '../cpp-numintegrator/num_integrator', '../cpp-ld-funcs/ld_funcs'
            return ni, ld, ni, ld

        _custom_build.build_py.get_install_paths = get_install_paths
        _custom_build.build_py.run = lambda self: None
        orig = be.build_ext.build_extension

        def build_extension(self, ext):
            ext.extra_compile_args = list(ext.extra_compile_args or []) + EXTRA[variant]
            ext.extra_link_args = list(ext.extra_link_args or []) + LINK[variant]
            return orig(self, ext)

        be.build_ext.build_extension = build_extension
        setup(script_name='setup.py',
              script_args=['build_py', 'build_ext', '--inplace', '--force',
                           '--build-temp', 'build/temp/objs', '--parallel', '6'])
        found = [f for f in glob.glob('**/*.so', recursive=True)
                 if not f.startswith('build/')]
    if not found:
        sys.exit(f'{pkg}: no shared object was built')
    print('built', found)


main()
