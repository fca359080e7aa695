#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decide one property on /repo's working tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), HERE]
import fw
try:
    rc = fw.main(sys.argv)
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
