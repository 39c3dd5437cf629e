#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decides one property for /repo's current tree"""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode=True
from vk import core
core.main(sys.argv)
