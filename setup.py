#!/usr/bin/env python3
"""Builds the MIR driver from the committed source (offline)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import common
try: print(common.build_driver())
except common.ToolError as e: print(e); sys.exit(2)
