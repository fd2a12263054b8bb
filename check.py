#!/usr/bin/env python3
"""usage: check.py PROPERTY... | all [--thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
from sa import check
sys.exit(check.main(sys.argv[1:]))
