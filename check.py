#!/usr/bin/env python3
"""Entry point of every check: `python3 check.py C01` (see lib/core.py)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main())
