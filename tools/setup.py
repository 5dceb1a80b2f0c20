#!/usr/bin/env python3
"""checks that the tools are there and warms the Go build cache (the checks
build everything they need themselves)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
c = vlib.Ctx("setup")
try:
    c.build("unit"); c.build("agent")
finally:
    c.finish()
