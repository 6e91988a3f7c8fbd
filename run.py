#!/usr/bin/env python3
"""run.py <property> <quick|thorough>"""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common
if __name__ == "__main__":
    m = importlib.import_module("vlib.checks." + sys.argv[1].lower())
    common.main({sys.argv[1]: (m.check, m.LEVEL, m.RULE)})
