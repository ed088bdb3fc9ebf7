#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only NAME] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.setrecursionlimit(20000)
if __name__ == "__main__":
    from pyvc.driver import main
    sys.exit(main(sys.argv[1:]))
