"""symx: a small symbolic execution engine for rankeval's Python/Cython/C++ code (see DESIGN.md)."""
import sys, os
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)      # only z3 is taken from there; appended so that numpy & co. stay the venv's
