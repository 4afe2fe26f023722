#!/usr/bin/env python3
"""check.py <property>   (VERIF_TIER, VERIF_SEED in the environment)
   check.py --replay <file>"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
import checks

if __name__ == '__main__':
    sys.exit(checks.main(sys.argv[1:]))
