"""Setup: nothing to build; confirms the interpreter finds what the checks import."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import erfa, hypothesis, numpy  # noqa: E401,F401
print("numpy", numpy.__version__, "hypothesis", hypothesis.__version__, "erfa", erfa.__version__)
