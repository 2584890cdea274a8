#!/usr/bin/env python3
"""check.py PROPERTY-ID : run one static check (see DESIGN.md)."""
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.report import run  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("sa.rules.%s" % pid.lower())
    return run(pid, mod.check)


if __name__ == "__main__":
    sys.exit(main())
