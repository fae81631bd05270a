#!/usr/bin/env python3
"""nothing needs building: check that the verifier's tools are there"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from pyver import verify
print('z3', z3.get_version_string())
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
