#!/usr/bin/env python3
"""Builds the IR dumper (the only compiled part of the framework)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pl import front
print(front.ensure_irdump())
