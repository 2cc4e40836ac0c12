#!/usr/bin/env python3
"""Builds the executor and compiles the current tree once, so that the first check starts warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vsxlib as V
try:
    V.engine()
    V.bitcode()
    V.native_build('smoke', None)
    V.native_build('smoke', 'address,undefined')
except V.Infra as e:
    print(e)
    sys.exit(1)
print('ready')
