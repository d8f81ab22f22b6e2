"""Entry point of all checks: run.py <property id>.  See mon/core.py."""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon.guard import guarded


def check():
    from mon.core import main
    return main(sys.argv)


sys.exit(guarded(sys.argv[1], check))
