"""Replays one artefact without the explorer:  python -m mc.replay replays/C01-....json"""
import importlib
import json
import os
import sys

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        pid = json.load(f)['property']
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mod = importlib.import_module('mc.checks.%s' % pid.lower())
    sys.exit(mod.run(['--replay', sys.argv[1]]))
