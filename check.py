#!/usr/bin/env python3
"""Runs one check: check.py <property id> [--tier quick|thorough]

exit 0: the property holds on everything analysed; exit 1: VIOLATION lines; other: the analysis is broken."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from checks import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
