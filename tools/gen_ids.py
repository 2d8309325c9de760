#!/usr/bin/env python3
"""Writes harness/src/ids.rs: every id next to the name it stands for (from spec/Names.tla)."""
import os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
s = open(os.path.join(V, 'spec', 'Names.tla')).read()
g = lambda k: re.findall(r'"([^"]+)"', re.search(k + r' == <<(.*?)>>', s, re.S).group(1))
cap = lambda n: ''.join(p[:1].upper() + p[1:] for p in n.split('-'))
out = '//! Generated by tools/gen_ids.py from spec/Names.tla.\nuse svgdom::{AttributeId, ElementId};\n\n'
for const, ty, names in (('ELEMENTS', 'ElementId', g('ElementNames')), ('ATTRIBUTES', 'AttributeId', g('AttributeNames'))):
    out += 'pub const %s: &[(&str, %s)] = &[\n' % (const, ty)
    for n in names: out += '    ("%s", %s::%s),\n' % (n, ty, cap(n))
    out += '];\n'
open(os.path.join(V, 'harness', 'src', 'ids.rs'), 'w').write(out)
