"""Runtime-monitoring harness for eribean/GIRTH."""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("RV_SCRATCH"):
    # girth is always compiled from the sources in the working tree
    import numpy, scipy.stats, scipy.optimize, scipy.interpolate  # noqa: E401,F401
    sys.pycache_prefix = os.path.join(os.environ["RV_SCRATCH"], "pyc")
