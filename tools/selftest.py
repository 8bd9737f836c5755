#!/opt/venv/bin/python
"""setup_cmd: nothing to build; fail early when the toolchain is not what the checks expect."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import env      # noqa
env.setup_paths()
import numpy, scipy, astropy, colossus      # noqa
import lenstronomy      # noqa
import pyHalo           # noqa
subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
print('ok')
