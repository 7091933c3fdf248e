"""Nothing to build: checks that the interpreter and libraries the simulator needs are there."""
import sys
import numpy, scipy, matplotlib, pandas  # noqa
assert sys.version_info >= (3, 12) and hasattr(sys, "monitoring")
print("ok")
