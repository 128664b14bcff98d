"""Checks that the interpreters and solvers the checks need are present."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
subprocess.check_call([check.VT, '-c', 'import z3; print("z3", z3.get_version_string())'])
subprocess.check_call([check.PY, '-c', 'import numpy, numba; print("numpy", numpy.__version__, "numba", numba.__version__)'])
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
