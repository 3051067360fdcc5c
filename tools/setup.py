#!/usr/bin/env python3
"""one-off preparation: build library and driver from the current tree and make sure every specification parses"""
import os, sys, subprocess, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
print("driver:", vt.build())
