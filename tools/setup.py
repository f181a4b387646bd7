"""Nothing to build; confirms that interpreter, libraries and stand-ins are usable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core  # noqa: E402

core.setup_paths()
import greenlet  # noqa: E402,F401
import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import odf  # noqa: E402,F401
import pulp, dimod, neal, pyqubo, dwave.system  # noqa: E402,E401,F401

os.makedirs(core.EVIDENCE, exist_ok=True)
print("ready")
