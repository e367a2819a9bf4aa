"""Compiles the Java definitions TLC uses."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402
tlc.compile_java()
