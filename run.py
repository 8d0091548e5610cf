#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter that the engine is built with, in a controlled environment (fixed hash seed,
headless matplotlib, single-threaded BLAS, byte code kept out of /repo), and hands over to harness.core.
"""
import os
import sys

VENV = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ)
    env.update({
        'VERIF_REEXEC': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1',
        'LANG': 'C.UTF-8', 'PYTHONIOENCODING': 'utf-8',
    })
    env.pop('PYTHONPATH', None)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from harness import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
