#!/usr/bin/env python3
"""replay.py <harness file> <function> <counterexample>: runs a counterexample against the real library."""
import sys
from vplib import *
rc, log = replay(native_program(sys.argv[1], sys.argv[2]), sys.argv[3]); print(log); sys.exit(rc)
