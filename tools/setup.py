"""Builds the extension module from /repo in the flavours the checks use."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import env  # noqa
for flavour in ('plain', 'asan', 'tsan'):
    print(flavour, env.build_ext(flavour))
