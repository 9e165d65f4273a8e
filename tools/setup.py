"""Setup: nothing to build; make sure the interpreter, Hypothesis and the code under test can be imported."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
from vlib import core
sys.path.append(core.HYP)
import hypothesis
import numpy
import CTL
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, CTL.__file__)
