"""Import the code under test from the working tree of /repo (never an installed or cached copy)."""
import os
import sys
import warnings

REPO = os.environ.get("HISTBOOK_REPO", "/repo")
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy
numpy.seterr(all="ignore")
import histbook
import histbook.book
import histbook.hist

if not os.path.abspath(histbook.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise ImportError("histbook imported from {0}, not from {1}".format(histbook.__file__, REPO))
