#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

Run with the interpreter that has pymtl3 (/opt/venv/bin/python)."""
import os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent'      # never trust a cached compilation of /repo
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]

if __name__ == '__main__':
  from vf.run import main
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  sys.exit(main(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))))
