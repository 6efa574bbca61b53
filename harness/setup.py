#!/opt/venv/bin/python
# Nothing has to be compiled: this verifies that the package under test and what the monitors use can be imported.
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vh import env  # noqa: E402

with tempfile.TemporaryDirectory() as scratch:
    env.prepare_environment(os.environ, scratch)
    print('ready:', env.load().__file__)
