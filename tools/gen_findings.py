#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
AMP = "`&` in a text node is written unescaped (tests text_7, text_9 and text_10 pin it): <text>a&amp;lt;b</text> is written as <text>a&lt;b</text> and read back as a<b; <text>&amp;x</text> is written as <text>&x</text>, which is not XML"
known = [
    {"property": "W02", "match": "text-ampersand", "what": AMP},
    {"property": "W04", "match": "text-ampersand", "what": AMP},
    {"property": "P02", "match": "nesting-25000", "what": "a document with 25000 nested g elements overflows the stack and aborts the process (process_node, the removal of style elements and the whitespace pass recurse once per level)"},
]
F = '''97d6a19 D02 root() of a node far from the root was not found by walking all parents
b0fa189 D01 moving a node next to its own neighbour panicked (already borrowed) or corrupted the sibling list
f20f248 D03 a node could be inserted into its own subtree, which made a cycle
b7b1b83 D07 remove_node left links held under attribute names unknown to SVG
800757a P04 a value from a more specific source did not override a pending link
234d4f5 P04 an identity transform from a more specific source did not override an inherited one
2220fea P06 links collected on style elements were resolved after their removal
70b7ac0 P07 whitespace was not processed when the text was not the first child
e01f289 P07 xml:space was not taken from the nearest ancestor
1f57021 P07 trailing space kept with two text nodes
80813c0 P07 text element with only tspans was not processed
66f4bc0 P07 leading space kept after nodes that become empty
9863b3e P07 a single space was taken for an empty node
6b28631 P07 the trailing space of a preserved node was removed
f231c1e W04 & and < in attribute values were written raw
f5613be W03 indentation was switched on again after a nested text element
fa88937 W04 tabs and line breaks in attribute values were lost
82add96 W04 ]]> and carriage returns in text were written raw
9ee55c7 W04 unicode values were not always written as character references
71ea3b9 T03 default values of stroke-miterlimit and glyph-orientation-horizontal had the wrong type
f099ed6 W02 a text starting with ]> was written raw, which the XML parser in use refuses'''
fixed = []
for l in F.split('\n'):
    c, p, w = l.split(' ', 2)
    full = subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True).stdout.strip()
    fixed.append('fixed: property=%s %s %s' % (p, full or c, w))
json.dump({'known': known, 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
