#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N]"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    from vlib import runner
    mod = importlib.import_module("props." + sys.argv[1])
    sys.exit(runner.main(mod, sys.argv[2:]))
