#!/usr/bin/env python3
"""python3 tools/check.py <property id>: the check registered for that property in MANIFEST.json."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
import checks

if __name__ == "__main__":
    prop = sys.argv[1]
    level, fn = checks.CHECKS[prop]
    sys.exit(vp.main(prop, level, fn))
