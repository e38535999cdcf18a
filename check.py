#!/usr/bin/env python3-vt
"""check.py <PROPERTY>            decide one property (exit 0 / exit 1 + VIOLATION line)
   check.py --replay <file>      re-run the failing input recorded in a replay file"""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from pyvc import driver
sys.exit(driver.main(sys.argv[1:], HERE))
