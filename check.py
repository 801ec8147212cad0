#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed S] [--replay FILE]

Builds the library from /repo's working tree, then simulates. Exit 0: the property held on everything explored; exit 1
with a VIOLATION line otherwise; any other exit is an error of the check itself.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = next((p for p in ('/opt/venv/bin/python', sys.executable) if os.path.exists(p)), sys.executable)


def main():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    env.pop('LD_PRELOAD', None)
    p = subprocess.run([PY, os.path.join(HERE, 'sim', 'build.py')], stdout=subprocess.PIPE, env=env, text=True)
    if p.returncode:
        print('BUILD-FAILED: the library does not build from the working tree', file=sys.stderr)
        return 3
    if sys.argv[1:] == ['--build']:
        return 0
    d = p.stdout.split()[-1]
    env.update(PANELS_SIM_DIR=d, LD_PRELOAD=os.path.join(d, 'libsim.so'), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=HERE, TZ='UTC', LC_ALL='C.UTF-8')
    os.execve(PY, [PY, '-m', 'sim.runner'] + sys.argv[1:], env)


if __name__ == '__main__':
    sys.exit(main())
