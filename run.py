#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--seed N]
                                [--replay FILE] [--only TEST] [--jobs N]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: an error of the check itself."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

WANT = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ='UTC', LC_ALL='C.UTF-8',
            PYTHONWARNINGS='ignore', PBT_ENV='1')

if os.environ.get('PBT_ENV') != '1':
  env = dict(os.environ)
  for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYGEODELIBPATH', 'PYGEODEPLUGINS', 'LD_LIBRARY_PATH'):
    env.pop(k, None)
  env.update(WANT)
  exe = PY if os.path.exists(PY) else sys.executable
  os.execve(exe, [exe, os.path.join(HERE, 'run.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from pbt import harness
if sys.argv[1:] == ['--setup']: sys.exit(harness.setup())
sys.exit(harness.main(sys.argv[1:]))
