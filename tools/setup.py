#!/usr/bin/env python3
"""Checks that the toolchain the explorers need is there (nothing is cached:
every check builds the current sources of /repo)."""
import subprocess
import sys
t = '#include <glog/logging.h>\nint main() { return 0; }\n'
p = subprocess.run(['g++', '-std=c++20', '-x', 'c++', '-', '-o', '/dev/null',
                    '-lglog'], input=t, text=True)
sys.exit(p.returncode)
