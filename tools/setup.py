#!/usr/bin/env python3
"""Build the driver and see that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp

print(vp.build())
run = vp.tlc('Tape', workers=2)
if not run.ok:
    sys.exit('TLC does not run:\n' + run.tail())
