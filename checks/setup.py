#!/usr/bin/env python3
"""Builds what the checks need; a first build makes the checks faster."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
sys.dont_write_bytecode = True
import vh
vh.build()
vh.build_shim()
r = vh.tlc("Cache", "", timeout=60, extra=("-h",))
print("ok")
