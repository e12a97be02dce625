"""Imports the code under test from the working tree (default /repo)."""
import os, sys, logging, warnings
REPO = os.environ.get('HAPUA_REPO', '/repo')
sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import hapuamod
assert os.path.realpath(hapuamod.__file__).startswith(os.path.realpath(REPO) + '/'), hapuamod.__file__
from hapuamod import core, riv, coast, mor, loadmod, out, geom, synth, visualise
logging.disable(logging.CRITICAL)
