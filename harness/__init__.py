"""Hypothesis-driven checks for surface_potential_analysis."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The code under test comes from /repo's working tree; hypothesis from the tool venv (appended, so that
# numpy/scipy/... are still the ones the library is installed with).
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from harness import sse_standin  # noqa: E402

sse_standin.install()
