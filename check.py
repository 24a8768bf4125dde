#!/usr/bin/env python3
"""check.py Cnn [quick|thorough]   decides one property;   check.py --replay FILE   re-runs one refused input"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbv.core import main
sys.exit(main(sys.argv[1:]))
