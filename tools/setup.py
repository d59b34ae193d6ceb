#!/usr/bin/env python3
"""Builds the engine (checks rebuild it if it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild
print(irbuild.build_engine())
