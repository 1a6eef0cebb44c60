#!/usr/bin/env python3
"""warm the build of the replay driver (the checks rebuild it from /repo's current tree anyway)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
print(drv.build())
