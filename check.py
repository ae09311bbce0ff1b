#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import core  # noqa: E402

core.setup()
prop = sys.argv[1]
from checks import REGISTRY  # noqa: E402

modname, fn, shards = REGISTRY[prop]
mod = importlib.import_module("checks." + modname)
core.main(prop, getattr(mod, fn), shards, sys.argv[2:])
