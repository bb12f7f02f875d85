#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from slpv.check import main
sys.exit(main(sys.argv[1]))
