#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, one section per property (bounds from harness/specs.py), the planted changes."""
import json, os, sys, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
import specs
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ORACLE = {
'C01': "an independent UTF-8 encoder (shifts and masks written from the standard) and the structural rule for lead and continuation bytes",
'C02': "the order of the two 32-bit code points",
'C03': "a structural splitter of byte strings into lead + continuation bytes; the C text is in an exactly sized heap block, so that reading on is an out-of-bounds access",
'C04': "the definition of occurrence, written as one symbolic formula over all alignments",
'C05': "a list of code points with the same operation; unrelated strings are compared as well, so that aliasing shows",
'C06': "lexicographic comparison of the code-point lists as one formula",
'C07': "tables of the Unicode character database generated from Python's unicodedata (harness/unicode_tables.h, tools/gen_unicode.py)",
'C08': "the simple case mappings of the Unicode character database (same tables)",
'C09': "an interpreter of the segment list the format was built from",
'C10': "padding and cutting written from the statement",
'C11': "no oracle is needed but termination, memory safety and the type of what is thrown; brace balance is judged by a small scanner",
'C12': "definitions of the helpers as loops over the bytes",
'C13': "a left-to-right replacement written from the statement",
'C14': "a std::string that receives the same pieces; the number of live allocations",
'C15': "the definition of occurrence",
'C16': "64-bit machine integers built from the same symbolic digits; results are compared as sums of non-negative terms",
'C17': "64-bit machine integers; division is checked by a = q*b + r and the size and sign of r",
'C18': "canonical decimal text of a machine integer",
'C19': "machine integers in units of the last fraction digit; division is checked with the (separately decided) exact product and difference",
'C20': "termination, memory safety, absence of escaping exceptions, the number of live allocations afterwards, and the reader of C21 for what is an error",
'C21': "a separate recursive-descent JSON reader in the harness that gives acceptance and a tree",
'C22': "the same reader, with its own unescaping",
'C23': "the same reader; integers as machine integers, floating values through the same correctly rounded conversion as strtof",
'C24': "a tree built next to the library's values and compared with what is parsed back",
'C25': "a tree of plain values that goes through the same history; the number of live allocations",
'C26': "the tree the value was built from",
'C27': "the state and payload the object was given",
'C28': "per-object tracking of payload lifetimes (a payload registers construction and destruction at its address; use after destruction is an error)",
'C29': "an ownership model: for each object the set of owners; live objects and allocations",
'C30': "the same ownership model with one owner",
'C31': "the same ownership model with observers",
'C32': "happens-before vector clocks for data races, memory liveness of every access, and the ownership model at the end of every schedule",
'C33': "comparison in 128-bit signed arithmetic",
'C34': "the requested range itself; the bit generator is replaced by arbitrary values",
'C35': "the map itself",
'C36': "a byte array with a position and an end-of-file flag",
'C37': "a line reader over the input bytes; the bytes collected from the three streams",
'C38': "the outcomes that were chosen for the tests; the condition of each assertion, for operands that can be unordered",
'C39': "a copy of the argument vector taken before the start",
'C41': "sizeof",
'C43': "the reader of C20-C26 on the last text given, carried along by a table of two documents",
'C42': "an arbitrary value of the type",
}
WHY = {p['id']: p['why_tests_cant'] for p in props}
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
tail = open(os.path.join(V, 'tools', 'design_tail.md')).read()
o = [head, '\n## Properties\n']
for p in props:
    i = p['id']
    o.append('\n### %s %s\n' % (i, p['title']))
    if i not in specs.SPECS:
        o.append('Not applicable: %s\n' % specs.NA[i]); continue
    o.append('Oracle: %s.' % ORACLE[i])
    o.append('Beyond the tests: %s\n' % WHY[i])
    for r in specs.SPECS[i]['runs']:
        b = r['bounds']; n = r['entry'] + (' (%s)' % r['tag'] if r.get('tag') else '')
        t = '' if b['quick'] == b['thorough'] else '; thorough: ' + b['thorough']
        o.append('- `%s` in `harness/%s`%s: %s%s' % (n, r['src'], ', thorough only' if r.get('thorough_only') else '', b['quick'], t))
    for a in specs.SPECS[i].get('assumptions', []): o.append('- assumption: ' + a)
o.append('\n' + tail)
res = {}
rp = os.path.join(V, 'tools', 'seed_results.json')
if os.path.exists(rp): res = json.load(open(rp))
o.append('\n| change | property | needs | quick check |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json')); n = os.path.basename(d)
    o.append('| %s | %s | %s | %s |' % (n, m['property'], str(m['needs']).replace('|', '/'), res.get(n, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
