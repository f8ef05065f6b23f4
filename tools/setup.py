#!/usr/bin/env python3
"Nothing to build: checks that the interpreter, gpkit, cvxopt and Hypothesis are usable."
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
sys.exit(subprocess.call(
    [check.interpreter(), "-W", "ignore", "-c",
     "import sys; sys.path.insert(0, %r); from pbt import core; core.bootstrap();"
     "import gpkit, cvxopt, hypothesis; print('gpkit', gpkit.__file__,"
     " 'hypothesis', hypothesis.__version__)" % HERE], env=check.environment()))
