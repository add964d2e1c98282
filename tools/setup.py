#!/opt/venv/bin/python
"""Nothing is compiled: checks that komm is imported from /repo's working tree."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, "/repo/src")
import komm
import numpy

assert os.path.realpath(komm.__file__).startswith("/repo/"), komm.__file__
print("komm from", komm.__file__, "numpy", numpy.__version__)
