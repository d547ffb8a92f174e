#!/usr/bin/env python3
"""check.py PROPERTY [--quick|--thorough]: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, checks
core.main(checks.CHECKS)
