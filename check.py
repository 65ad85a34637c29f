#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf
import checks

if __name__ == '__main__':
    prop = sys.argv[1]
    t = sys.argv[2] if len(sys.argv) > 2 else None
    if t: os.environ['VERIF_TIER'] = t
    vf.main(prop, checks.CHECKS[prop], t)
