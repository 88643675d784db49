#!/usr/bin/env python3-vt
"""debug driver: dbg.py HARNESS UNIT [proof|bounded] [k=v ...]"""
import sys,os,time
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fcv import build,spec,run
run.debug(sys.argv[1:])
