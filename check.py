#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property against /repo's working tree
   check.py --replay FILE                   re-run a recorded failing input"""
import sys, os, time, json, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import runner
if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(runner.replay(sys.argv[2]))
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
