"""setup_cmd: build the rustc driver and warm the MIR dump of the current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
print(dump.driver()); print(dump.dumps())
