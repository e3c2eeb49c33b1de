#!/usr/bin/env python3
"""Nothing to install: reports which of the tools the checks use are present."""
import shutil
for t in ('g++', 'clang++-18', 'opt-18', 'opt', 'python3-vt', 'lean'): print(t, shutil.which(t))
