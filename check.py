#!/usr/bin/env python3
"""check.py <property id> [--count N] [--labels]   or   check.py --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(sys.argv[2]))
    sys.exit(core.main(sys.argv[1:]))
