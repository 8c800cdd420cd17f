#!/bin/sh
# Nothing is installed: every check builds what it needs from /repo into a scratch directory of its own.
set -e
for t in python3 meson ninja gfortran-11 gcc-11 gfortran-13; do
  command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }
done
mkdir -p evidence replays
python3 -m py_compile run.py jobs.py
echo ok
