#!/opt/venv/bin/python
"""Entry point of all checks: check.py <property> [options]; see sim/runner.py"""
import os
import sys

PYTHON = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'), 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONPATH': '',
        'PYTHONUNBUFFERED': '1', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'}

if any(os.environ.get(k) != v for k, v in WANT.items()) or sys.executable != PYTHON:
    os.environ.update(WANT)
    os.execv(PYTHON if os.path.exists(PYTHON) else sys.executable,
             [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa: E402  pylint: disable=wrong-import-position

if __name__ == '__main__':
    sys.exit(runner.main())
