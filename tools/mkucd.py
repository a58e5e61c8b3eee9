#!/usr/bin/env python3
"""Writes sim/ucd.h (run by hand): general categories and simple case mappings from Python's unicodedata. Code points on which that database
and the (older) one in the repository given on the command line disagree are listed as unsure; texts of the checks never contain them."""
import re, sys, unicodedata
t = open(sys.argv[1] + '/TameParse/Unicode/unicode_data.h').read()
cat = {}
for m in re.finditer(r's_Range(\w\w)\[\]\s*=\s*\{(.*?)\};', t, re.S):
    for a, b in re.findall(r'\{\s*(-?\d+),\s*(-?\d+)\s*\}', m.group(2)):
        for c in range(int(a), int(b)): cat[c] = m.group(1)
def table(name):
    o = {}
    for a, b, to in re.findall(r'\{\s*(\d+),\s*(\d+),\s*(\d+)\s*\}', re.search(r'unicode::s_' + name + r'Map\[\]\s*=\s*\{(.*?)\};', t, re.S).group(1)):
        for c in range(int(a), int(b)): o[c] = int(to) + c - int(a)
    return o
def mine(f):
    o = {}
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000: continue
        x = f(chr(c))
        if len(x) == 1 and ord(x) != c: o[c] = ord(x)
    return o
unsure = set(); odd = set(); cats = {}
for c in range(0x110000):
    u = unicodedata.category(chr(c))
    if u != cat.get(c, 'Cn'): unsure.add(c)
    elif u != 'Cn': cats[c] = u
maps = []
for name, f in (('Uppercase', str.upper), ('Lowercase', str.lower)):
    a, b = table(name), mine(f)
    for c in set(a) | set(b):
        if a.get(c) != b.get(c): odd |= {c} | {x[c] for x in (a, b) if c in x}
    maps.append({c: v for c, v in b.items() if a.get(c) == v})
def runs(cs):
    o = []
    for c in sorted(cs):
        if o and o[-1][1] == c - 1: o[-1][1] = c
        else: o.append([c, c])
    return o
with open(__file__.rsplit('/', 2)[0] + '/sim/ucd.h', 'w') as f:
    f.write('// written by tools/mkucd.py\nstatic const struct { int lo, hi; char a, b; } ucdCat[] = {\n')
    n = 0
    for k in sorted(set(cats.values())):
        for lo, hi in runs(c for c in cats if cats[c] == k): f.write("{%d,%d,'%s','%s'}," % (lo, hi, k[0], k[1])); n += 1; f.write('\n' if n % 12 == 0 else '')
    f.write('};\nstatic const int ucdUnsure[][2] = {\n' + ','.join('{%d,%d}' % (a, b) for a, b in runs(unsure)) + '};\nstatic const int ucdOdd[][2] = {\n' + ','.join('{%d,%d}' % (a, b) for a, b in runs(odd)) + '};\n')
    for name, m in zip(('Upper', 'Lower'), maps):
        o = []
        for c in sorted(m):
            if o and o[-1][1] == c - 1 and o[-1][2] + c - o[-1][0] == m[c]: o[-1][1] = c
            else: o.append([c, c, m[c]])
        f.write('static const int ucd%s[][3] = {\n' % name + ','.join('{%d,%d,%d}' % tuple(x) for x in o) + '};\n')
    print(n, 'ranges', len(unsure), 'unsure', [len(m) for m in maps])
