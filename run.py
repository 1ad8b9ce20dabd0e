#!/usr/bin/env python3
"""Decides one property:  python3 run.py C01   (VERIF_SEED, VERIF_TIER from the environment)

exit 0  the property held on everything explored
exit 1  a line  VIOLATION property=<id> replay=<path>
other   the check itself failed
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import checks
sys.exit(checks.main(sys.argv[1:]))
