#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import importlib, os, sys, traceback
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), d) for d in ('lib', 'checks')]
sys.dont_write_bytecode = True
import harness
LEVELS = {'C23': 'model_checking'}
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    chk = harness.Check(prop, getattr(mod, 'LEVEL', 'model_checking'), tier)
    try:
        mod.main(chk)
    except harness.ModelError as e:
        print('MODEL ERROR:', e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    chk.finish()
main()
