#!/usr/bin/env python3
"""Writes ref/unicode15.txt from Python's unicodedata (15.0.0) and perl's ExtPict: independent of /repo."""
import unicodedata, subprocess, os
assert unicodedata.unidata_version == '15.0.0'
sets = {}
for r in range(0x110000):
    c = chr(r)
    e = unicodedata.east_asian_width(c)
    if e in ('W', 'F'): sets.setdefault('wide', []).append(r)
    elif e == 'A': sets.setdefault('ambiguous', []).append(r)
    elif e == 'Na': sets.setdefault('narrow', []).append(r)
    if 'COMBINING' in unicodedata.name(c, ''): sets.setdefault('combining', []).append(r)
p = subprocess.run(['perl', '-e', 'no warnings; for (0..0x10ffff){ print "$_\n" if chr($_)=~/\\p{ExtPict}/ }'], capture_output=True, text=True).stdout
sets['pictographic'] = [int(x) for x in p.split()]
def ranges(s):
    out = []
    for x in s:
        if out and out[-1][1] == x-1: out[-1][1] = x
        else: out.append([x, x])
    return out
dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'unicode15.txt')
with open(dst, 'w') as f:
    for k in ('wide', 'ambiguous', 'narrow', 'combining', 'pictographic'):
        for a, b in ranges(sets[k]): f.write(f'{k} {a:X} {b:X}\n')
