#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, checks
core.main(checks.CHECKS)
