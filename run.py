#!/usr/bin/env python3-vt
"""Usage: run.py <property id> [case regex] | run.py --replay <file>"""
import os, sys, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vv import driver


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        return driver.replay_file(a[1])
    if a[0] == '--replay-asan':
        return driver.replay_file(a[1], asan=True)
    return driver.run_property(a[0], only=a[1] if len(a) > 1 else None, jobs=int(os.environ.get('VV_JOBS', '8')))


if __name__ == '__main__':
    sys.exit(main())
