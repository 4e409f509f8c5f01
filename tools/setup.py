#!/usr/bin/env python3
"""builds the extractor (idempotent)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import build_extractor
print(build_extractor())
