#!/usr/bin/env python3
"""usage: check.py Cnn [--tier quick|thorough] [--replay FILE] [--only HARNESS] [-v]"""
import importlib
import os
import sys
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa
if __name__ == '__main__':
    prop = sys.argv[1]
    m = importlib.import_module('props.' + prop.lower())
    sys.exit(vp.main(prop, m.HARNESSES, m.ASSUMPTIONS, m.BOUNDS, sys.argv[2:]))
