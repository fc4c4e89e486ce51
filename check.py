#!/usr/bin/env python3
"""Run one property check: check.py C01 [--tier quick|thorough]"""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report

threading.stack_size(512 * 1024 * 1024)
rc = [2]


def go():
    rc[0] = report.main(sys.argv[1:])


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
