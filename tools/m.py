#!/usr/bin/env python3
"""Runs a model:  m.py MODULE [CONFIG]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
cx = core.Ctx('model', 'quick', 1)
try:
    rc, out, gen, dist = cx.tlc(sys.argv[1] + '.tla', (sys.argv[2] if len(sys.argv) > 2 else sys.argv[1]) + '.cfg', workers=8, timeout=3600, heap='10g')
    print("\n".join(l for l in out.split("\n") if "nvariant" in l or "Error" in l), out[-3500:])
finally:
    cx.close()
