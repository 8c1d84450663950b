#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there."""
import subprocess
import sys
py = '/opt/veriftools/pyvenv/bin/python3'
r = subprocess.run([py, '-c', 'import z3; print("z3", z3.get_version_string())'])
sys.exit(r.returncode)
