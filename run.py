#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough]
[--seed N] [--replay FILE] [--only JOBNAME] [--serial].

Re-executes itself with flavio's interpreter and a controlled environment,
then hands over to lib/runner.py."""
import os
import sys
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    scratch = tempfile.mkdtemp(prefix='verif-')
    env = dict(os.environ)
    env.update({
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg',
        'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
        'TMPDIR': scratch,
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
        'VERIF_SCRATCH': scratch,
        'VERIF_HOME': HERE,
        'PYTHONWARNINGS': 'ignore',
    })
    os.makedirs(env['MPLCONFIGDIR'])
    if '--setup' in sys.argv:
        # nothing to build (pure Python): check that interpreter and package load
        rc = subprocess.call([PY, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, "/repo"); import flavio; '
                              'print("flavio", flavio.__version__, "from", flavio.__file__)'], env=env, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)
    cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'lib', 'runner.py')] + sys.argv[1:]
    try:
        rc = subprocess.call(cmd, env=env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 128 - rc)


if __name__ == '__main__':
    main()
