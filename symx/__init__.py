"""Symbolic execution of wcxf on top of z3."""
import sys
_Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z3PATH not in sys.path:
    sys.path.append(_Z3PATH)
