#!/opt/venv/bin/python
"""run_check.py --property ID [--replay FILE]: decide one property on /repo's working tree."""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine  # noqa: E402

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--replay')
    a = ap.parse_args()
    mod = importlib.import_module('checks.' + a.property.lower())
    sys.exit(engine.main(mod.CHECK, a.replay))
