#!/usr/bin/env python3
"""Writes the value list of the C16 finding (run once, by hand)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import ucd
u = ucd.UCD()
a, b = u.compat(hangul=False), u.compat(hangul=False, tags={"compat"})
d = sorted(c for c in a if a[c] != b.get(c))
out = []
for c in d:
    if out and out[-1][1] == c - 1:
        out[-1][1] = c
    else:
        out.append([c, c])
print("# %d codepoints" % len(d))
L = ["%X" % x if x == y else "%X-%X" % (x, y) for x, y in out]
for i in range(0, len(L), 16):
    print("values: compat-tags-ignored " + " ".join(L[i:i + 16]))
