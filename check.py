#!/opt/venv/bin/python
"""Usage: check.py PROPERTY [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, checks

checks.load()
if sys.argv[1] == "--setup":
    sys.exit(core.setup())
prop = sys.argv[1]
fn, rule, needs = checks.CHECKS[prop]
replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
sys.exit(core.main(prop, fn, rule, needs, replay))
