"""setup_cmd: checks that the tool chain can build the smallest monitor (every check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from specs import SPECS
print(B.build([(tuple(SPECS['D01']['harness']), 'ship')]))
