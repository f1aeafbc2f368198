"""Print CASES.md: every case with its number of examples (quick, thorough) and its rule."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import harness  # noqa: E402,F401
from harness.core import REGISTRY  # noqa: E402

print("# Cases\n\nGenerated by tools/list_cases.py.")
for i in range(1, 25):
    p = f"C{i:02d}"
    importlib.import_module(f"checks.{p.lower()}")
    print(f"\n## {p}\n")
    for n, c in REGISTRY[p].items():
        print(f"- `{n}` ({c.quick} / {c.thorough}): {' '.join(c.rule.split())}")
