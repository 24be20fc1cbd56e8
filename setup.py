#!/usr/bin/env python3
"""build the fact exporter and warm the fact cache"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lms import facts
P = facts.load_all()
print('setup: %d functions, %d classes from %d translation units' % (len(P.funcs), len(P.classes), len(P.info['tus'])))
