#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only h1,h2] [-v]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--case', help='only these case numbers')
    ap.add_argument('-j', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from symx import driver
    return driver.main(a.prop, 'checks.' + a.prop.lower(), a.tier, a.only.split(',') if a.only else None, a.j, a.budget, a.v,
                       [int(x) for x in a.case.split(',')] if a.case else None)


if __name__ == '__main__':
    sys.exit(main())
