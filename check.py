#!/usr/bin/env python3
"""python check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim.runner import main
sys.exit(main())
