#!/usr/bin/env python3
"""Writes harness/unicode_tables.h from Python's unicodedata (the reference for C07, C08)."""
import os, unicodedata as U
N = 0x110000
def simple_upper(c):
    s = chr(c).upper()
    if len(s) == 1: return ord(s)
    t = chr(c).title()
    return ord(t) if len(t) == 1 else c
def simple_lower(c):
    s = chr(c).lower()
    if len(s) == 1: return ord(s)
    return {0x130: 0x69}.get(c, c)
def runs(m):                     # {cp: delta} -> (lo, hi, step, delta)
    r = []
    for c in sorted(m):
        if r:
            lo, hi, st, d = r[-1]
            if d == m[c] and ((lo == hi and c - hi in (1, 2)) or (lo != hi and c - hi == st)):
                r[-1] = (lo, c, c - hi, d); continue
        r.append((c, c, 1, m[c]))
    return r
up = {c: simple_upper(c) - c for c in range(N) if not 0xD800 <= c < 0xE000 and simple_upper(c) != c}
lo = {c: simple_lower(c) - c for c in range(N) if not 0xD800 <= c < 0xE000 and simple_lower(c) != c}
def rng(s):
    r = []
    for c in sorted(s):
        if r and r[-1][1] == c - 1: r[-1] = (r[-1][0], c)
        else: r.append((c, c))
    return r
nd = rng(c for c in range(0x10000) if U.category(chr(c)) == 'Nd')
ws = rng([*range(9, 14), 0x20, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000])
out = ['// generated by tools/gen_unicode.py from Unicode %s' % U.unidata_version, '#pragma once', '#include <cstdint>']
def fm(name, rs):
    out.append('inline uint32_t %s(uint32_t c)   // simple mapping' % name); out.append('{'); out.append('    uint32_t d = 0;')
    for l, h, st, d in rs:
        cond = 'c - 0x%Xu <= 0x%Xu' % (l, h - l) if l != h else 'c == 0x%Xu' % l
        if st == 2: cond = '((%s) & !((c ^ 0x%Xu) & 1))' % (cond, l)
        out.append('    d |= (uint32_t)-(int32_t)(%s) & 0x%Xu;' % (cond, d & 0xffffffff))
    out.append('    return c + d;'); out.append('}')
def fs(name, rs):
    out.append('inline bool %s(uint32_t c)' % name); out.append('{'); out.append('    bool r = false;')
    for l, h in rs: out.append('    r |= c - 0x%Xu <= 0x%Xu;' % (l, h - l))
    out.append('    return r;'); out.append('}')
fm('u_upper', runs(up)); fm('u_lower', runs(lo)); fs('u_digit_bmp', nd); fs('u_space', ws)
fs('u_is_upper', rng(c for c in range(N) if chr(c).isupper() and U.category(chr(c)) == 'Lu'))
fs('u_is_lower', rng(c for c in range(N) if U.category(chr(c)) == 'Ll'))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/unicode_tables.h'), 'w').write('\n'.join(out) + '\n')
print(len(runs(up)), len(runs(lo)), len(nd))
