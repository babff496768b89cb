#!/usr/bin/env python3
"""setup_cmd: build the IR tool (nothing else is kept between runs)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core  # noqa: E402

core.build_tools()
