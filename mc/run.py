"""usage: run.py <property> [quick|thorough]      (exit 0: held, 1: violated)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') is None:
    # iteration order of sets of strings is a source of nondeterminism: own it
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.dont_write_bytecode = True
import core
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
nproc = int(os.environ.get('VERIF_NPROC', '0')) or None
sys.exit(core.run(sys.argv[1].upper(), tier, nproc))
