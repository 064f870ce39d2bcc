#!/usr/bin/env python3
"""Fresh-sandbox setup: shows that the instrumented build works.  Checks rebuild on their own."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import srvlib
print("built", srvlib.binary())
