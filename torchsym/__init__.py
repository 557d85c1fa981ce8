import sys
# z3 / cvc5 come from the python tooling venv; appended at the end so that
# torch/numpy/pandas keep coming from the interpreter irtorch is tested with.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.setrecursionlimit(200000)
