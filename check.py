#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--index I]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import engine
if __name__ == "__main__":
    pid = sys.argv.pop(1)
    mod = importlib.import_module("checks." + pid.lower())
    engine.main(mod.CHECK())
