#!/usr/bin/env python3
"""check.py <ID> [--replay FILE] [--tier T] [--seed N] [--group G]: run one property's monitor.

Re-executes itself with the interpreter shipgrav is installed for, without stale bytecode.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


def parent():
    cache = tempfile.mkdtemp(prefix='rv_pyc_')
    tmp = tempfile.mkdtemp(prefix='rv_tmp_')
    env = dict(os.environ, PYTHONPYCACHEPREFIX=cache, PYTHONHASHSEED='0', RV_CHILD='1', TMPDIR=tmp,
               OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
    env.pop('PYTHONPATH', None)
    try:
        return subprocess.run([PY, '-B', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env).returncode
    finally:
        shutil.rmtree(cache, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if os.environ.get('RV_CHILD') != '1':
        sys.exit(parent())
    sys.path.insert(0, HERE)
    if sys.argv[1:] == ['--setup']:
        import numpy, pandas, scipy, statsmodels, tomli, yaml, tqdm  # noqa: what the code under test needs
        print('ready: python %s, numpy %s, pandas %s' % (sys.version.split()[0], numpy.__version__, pandas.__version__))
        sys.exit(0)
    from rv import core
    sys.exit(core.main(sys.argv[1].upper(), sys.argv[2:]))
