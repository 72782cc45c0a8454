"""python -m mc C01 [quick|thorough] [--space=NAME]"""
import importlib
import os
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mod = importlib.import_module('mc.checks.%s' % sys.argv[1].lower())
    sys.exit(mod.run(sys.argv[2:]))
