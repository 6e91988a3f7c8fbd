#!/usr/bin/env python3
"""builds the decoder once, to show that the toolchain works; each check builds what it needs itself"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
build.build("opt", ["vp8decode"])
print("ok")
