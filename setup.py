#!/usr/bin/env python3
"""Nothing to build; confirm that the interpreters the checks need are present."""
import os
import shutil
import subprocess
import sys
vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
subprocess.run([vt, '-c', 'import z3, sympy'], check=True)
real = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
subprocess.run([real, '-c', 'import numpy, scipy'], check=True)
print('ok')
