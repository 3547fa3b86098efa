#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough]: run the check of one property."""
import os, sys, tempfile, shutil, atexit, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    # set iteration order is part of the environment: fix it
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
scratch = tempfile.mkdtemp(prefix='verif-')
owner = os.getpid()
def _clean():
    if os.getpid() == owner and scratch.startswith(tempfile.gettempdir() + os.sep + 'verif-'):
        shutil.rmtree(scratch, ignore_errors=True)
atexit.register(_clean)
os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
os.environ['VERIF_SCRATCH'] = scratch
os.environ['XDG_DATA_HOME'] = os.path.join(scratch, 'share')
os.chdir(scratch)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
if len(sys.argv) > 3 and sys.argv[2] == '--tier':
    os.environ['VERIF_TIER'] = sys.argv[3]
warnings.simplefilter('ignore')
import mc, importlib
prop = sys.argv[1]
mod = importlib.import_module(prop.lower())
rc = mc.main(prop, mod.run)
_clean()
os._exit(rc)
