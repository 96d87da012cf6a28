#!/usr/bin/env python3
"""Run the static check of one property:  run.py C01 [--tier quick|thorough]"""
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.setrecursionlimit(20000)
from sa.main import main

sys.exit(main(sys.argv[1:]))
