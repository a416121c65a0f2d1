"""Usage: check.py PROPERTY [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import core  # noqa: E402

core.main(sys.argv[1].lower(), sys.argv[2:])
