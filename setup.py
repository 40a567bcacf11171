#!/usr/bin/python3
"""Checks the tools the analyses need are there (checks build the rest)."""
import os, subprocess, sys
for t in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/llvm-config'):
    if not os.path.exists(t):
        sys.exit('missing ' + t)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'build'), exist_ok=True)
print(subprocess.run(['/usr/bin/clang++-18', '--version'], capture_output=True, text=True).stdout.splitlines()[0])
