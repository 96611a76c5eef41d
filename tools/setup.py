"""nothing to build: checks that the tools the checks use are importable"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import numpy, scipy, mpmath, z3  # noqa
from specs import registry  # noqa
print("ok", numpy.__version__, scipy.__version__, z3.get_version_string(), len(registry.PROPS), "properties")
