#!/opt/venv/bin/python
# Entry point of every check: run.py PROPERTY quick|thorough   (or: run.py --replay FILE)
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vh import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
