#!/usr/bin/env python3
"""Nothing is compiled: checks that the two interpreters and the back end are there."""
import shutil
import subprocess
import sys

VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
subprocess.check_call([VT, '-c', 'import z3, numpy, sympy, mpmath; print("z3", z3.get_version_string())'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import jax, flax, optax, einops; print("jax", jax.__version__)'])
sys.exit(0)
