"""Run in a freshly started interpreter (C22): uses a stored result, writes what it gives."""
import os
import pickle
import sys

REAL_OUT = os.dup(1)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world                                                  # noqa: E402
world.load()
import interp                                                 # noqa: E402
interp.send(REAL_OUT, pickle.dumps(interp.elsewhere(sys.stdin.buffer.read())))
