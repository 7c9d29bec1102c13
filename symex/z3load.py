"""Make z3 (installed in the verification venv) importable from the project's own interpreter."""
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "z3" not in sys.modules:
    sys.path.append(_SITE)
    try:
        import z3  # noqa
        import z3.z3util  # noqa
    finally:
        sys.path.remove(_SITE)
import z3  # noqa
