#!/usr/bin/env python3
"""setup_cmd: builds the extractor and configures /repo once (both are redone by a check that finds them missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import build
build.tool()
build.includes()
print("ready")
