#!/usr/bin/env python3
"""Reads lines 'CAUGHT <seed> <prop> <s> --- <prop> <family>#<index>' / 'MISSED ...' on stdin, prints the DESIGN.md table."""
import sys, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | caught at |\n|---|---|---|")
for l in sys.stdin:
    w = l.split()
    if not w: continue
    if w[0] == "CAUGHT": print("| %s | %s | %s |" % (w[1], w[2], w[6]))
    elif w[0] == "MISSED": print("| %s | %s | missed |" % (w[2], w[3]))
