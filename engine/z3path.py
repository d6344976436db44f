"""Make the pre-installed z3 bindings importable from /repo's interpreter."""
import sys

_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3  # noqa: F401
except ImportError:
    sys.path.append(_P)          # appended last: /opt/venv's numpy/scipy keep precedence
    import z3  # noqa: F401
