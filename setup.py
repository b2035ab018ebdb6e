#!/usr/bin/env python3
"""Compiles the witness units once, in parallel (every check does the same for the units it needs)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import wbuild, registry
wbuild.compile_many(registry.UNITS)
print("compiled", len(registry.UNITS), "witness units")
