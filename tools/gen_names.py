#!/usr/bin/env python3
"""One-off generator of spec/Names.tla (SVG 1.1 names) and spec/hex.json (code points).

The name lists are the ones of the SVG 1.1 specification as kept in /repo/codegen/*.txt at the pinned
commit.  The generated module is committed and is part of the specification: checks never regenerate it."""
import json
el = open('/repo/codegen/elements.txt').read().split()
al = open('/repo/codegen/attributes.txt').read().split()
assert al == sorted(al, key=str.lower) and el == sorted(el, key=str.lower)
def seq(l):
    out, line = [], '   '
    for i, x in enumerate(l):
        t = ' "%s"%s' % (x, ',' if i + 1 < len(l) else '')
        if len(line) + len(t) > 100: out.append(line); line = '   '
        line += t
    return '\n'.join(out + [line])
open('/verif/spec/Names.tla', 'w').write('''------------------------------- MODULE Names -------------------------------
(* The names of SVG 1.1, in the order of their ids: alphabetical, letter case ignored. *)
EXTENDS Sequences, Naturals

ElementNames == <<
%s >>

AttributeNames == <<
%s >>

ElementSet   == {ElementNames[i] : i \\in 1..Len(ElementNames)}
AttributeSet == {AttributeNames[i] : i \\in 1..Len(AttributeNames)}
AttributeRank == [n \\in AttributeSet |-> CHOOSE i \\in 1..Len(AttributeNames) : AttributeNames[i] = n]
=============================================================================
''' % (seq(el), seq(al)))
chars = [chr(c) for c in range(32, 127)] + list('\t\n\r\u00a0\u00e9\u2603\U0001d11e\u0431\u4e2d\x7f\x85\u2028\ufeff\U0010ffff\ue000\ufffd\u200b')
json.dump({c: '%x' % ord(c) for c in chars}, open('/verif/spec/hex.json', 'w'), indent=0, sort_keys=True)
