"""symx: a small symbolic executor for the numpy code in /repo, backed by z3."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
  sys.path.append(_VT)
sys.dont_write_bytecode = True
