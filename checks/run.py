#!/opt/veriftools/pyvenv/bin/python3
"""run.py ID : decide one property from /repo's current source"""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

META = {}


def go():
    pid = sys.argv[1]
    m = importlib.import_module(pid)
    rep = Report(pid, m.LEVEL, m.TECHNIQUE)
    rep.coverage['technique'] = m.TECHNIQUE
    m.check(rep)
    return rep.finish()


main(go)
