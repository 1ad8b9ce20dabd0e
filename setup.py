#!/usr/bin/env python3
"""Builds what does not depend on /repo: the TLC overrides and the drivers (checks rebuild them when missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import core
cx = core.Ctx('setup', 'quick', 1)
try:
    cx.java()
    for n in ('drv', 'tdrv', 'mdrv', 'adrv', 'sdrv', 'geninputs'):
        cx.tool(n, [n + '.cpp'])
finally:
    cx.close()
print('setup done')
