#!/opt/venv/bin/python
"""Nothing is built: only shows early that everything needed is there."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import hypothesis  # noqa: E402

from lib import refmodel, sut  # noqa: E402

for name in ("Chunky2048", "Slick256"):
    refmodel.spec(name)
print("hypothesis", hypothesis.__version__, "aiootp", sut.aiootp.__version__)
