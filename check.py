#!/usr/bin/env python3-vt
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from pbt.core import main
sys.stdout.reconfigure(line_buffering=True)
sys.exit(main(sys.argv[1:]))
