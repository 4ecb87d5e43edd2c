#!/usr/bin/env python3-vt
"""builds the LLVM IR of the whole tree once (the checks rebuild what changed)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irx import build
build.Tree().ll_all()
print('ok')
