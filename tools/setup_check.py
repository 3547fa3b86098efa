#!/opt/venv/bin/python
"""setup: nothing has to be built; verify that the interpreter can import the code under test."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import flavio
print('flavio', flavio.__version__, 'imported from', flavio.__file__)
