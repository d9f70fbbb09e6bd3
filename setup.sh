#!/bin/bash
# Builds the compiled parts of /repo's working tree in /verif/build (a cache: each check rebuilds what changed).
cd "$(dirname "$0")" || exit 1
export PATH=/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++ FC=gfortran PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
python vh/build.py plain && python vh/build.py asan && python vh/build.py tsan
