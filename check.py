#!/usr/bin/env python3
"""python3 /verif/check.py <property id> [-v] [--only=<case glob>]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    os.environ.setdefault('PYTHONHASHSEED', '0')
    from props.framework import main, selftest
    if sys.argv[1:] == ['--selftest']:
        sys.exit(selftest())
    sys.exit(main(sys.argv[1:]))
