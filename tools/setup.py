#!/usr/bin/env python3
"""Build the engine from the committed sources."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
sys.exit(0 if check.engine_binary() else 1)
