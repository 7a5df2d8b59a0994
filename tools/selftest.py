#!/usr/bin/env python3
"""Setup: nothing is built; check that the solver and the package can be loaded."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, scipy; "
        "x=z3.Real('x'); s=z3.Solver(); s.add(x*x<0); assert s.check()==z3.unsat; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code]))
