"""Nothing to build: check that the interpreters and the solver are there."""
import subprocess, sys
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.append(%r); import numpy, scipy, z3; print(numpy.__version__, scipy.__version__, z3.get_version_string())' % VT])
sys.exit(r.returncode)
