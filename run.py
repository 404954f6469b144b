#!/usr/bin/env python3
"""Entry point of the checks:  run.py C01 [--tier quick|thorough] | run.py replay <file> | run.py selftest

Re-executes itself with the interpreter meshmagick is installed in and a controlled environment (no bytecode, fixed
hash seed, single threaded BLAS)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', MPLBACKEND='Agg', VERIF_CHILD='1')

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault('HOME', '/root')
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-X', 'pycache_prefix=/nonexistent/verif-pycache', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from mc import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
