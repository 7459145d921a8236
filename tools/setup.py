#!/usr/bin/env python3
"""setup: builds the IR reader and loads the library once, so that the checks start warm"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
sys.dont_write_bytecode = True
import ir
M = ir.load()
print("%d functions, %d structs" % (len(M.funcs), len(M.structs)))
