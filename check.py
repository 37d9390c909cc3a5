#!/usr/bin/env python3
"""check.py <property> : decide one property from the sources in /repo"""
import sys, os, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
