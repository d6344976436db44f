"""setup: check that the interpreter, z3 and the code under test can be loaded; make output folders"""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
from engine import z3path  # noqa
import z3  # noqa
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
from engine import run  # noqa
run._imports()
import numpy, scipy, pymatgen.core, ase  # noqa
print('ready: z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
