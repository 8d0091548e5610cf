"""setup_cmd: checks that the interpreter, the engine and Hypothesis can be used (nothing needs to be built)."""
import os
import subprocess
import sys

VENV = '/opt/venv/bin/python'
exe = VENV if os.path.exists(VENV) else sys.executable
code = ("import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'/repo'); "
        "sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
        "import logic.sim, hypothesis; print('engine and hypothesis', hypothesis.__version__, 'available')")
sys.exit(subprocess.call([exe, '-c', code], env=dict(os.environ, MPLBACKEND='Agg'), cwd='/tmp'))
