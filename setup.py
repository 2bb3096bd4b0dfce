#!/usr/bin/env python3
"""Offline set-up: builds the drivers once, so that later checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Ctx, Broken
ctx = Ctx("setup", "quick", 1)
try:
    ctx.build(["all"])
    ctx.f64()
except Broken as e:
    print(e)
    sys.exit(2)
