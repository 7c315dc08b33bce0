#!/usr/bin/env python3
"""Builds /repo's working tree in all flavours and checks that TLC runs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
print(build(FLAVOURS + ("checked",)))
preds, st = predict([job("(declare-const Int Type)", main="sig")])
assert preds[0].end[3] == "correct"
print("TLC", st)
