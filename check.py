#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'    # the same seed explores the same cases
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.driver import main
sys.exit(main(sys.argv[1]))
