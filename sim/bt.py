#!/usr/bin/env python3
"""bt.py VARIANT < output: names the functions of a B line"""
import sys, subprocess, build as B
exe = B.build(sys.argv[1])
for l in sys.stdin:
    if l.startswith("B "):
        print(subprocess.run(["addr2line", "-fCpe", exe] + l.split()[1:], stdout=subprocess.PIPE).stdout.decode())
    elif l[:2] in ("R ", "F ", "P ","D "):
        print(l[:500], end="")
