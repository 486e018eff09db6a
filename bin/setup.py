#!/usr/bin/env python3
"""Builds the harness once, so that checks only rebuild what changed."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_harness())
print(vlib.build_semantic())
