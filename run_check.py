#!/usr/bin/env python3
"""Entry point of every check: run_check.py <PROPERTY-ID> [--replay FILE]."""
import os
import sys

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from ocv.driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
