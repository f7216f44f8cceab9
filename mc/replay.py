"""usage: replay.py <replay file>     re-runs one recorded case without the explorer"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.dont_write_bytecode = True
import core
sys.exit(core.replay(sys.argv[1]))
