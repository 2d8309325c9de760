"""T properties: the tables of the library, judged by TableTrace.tla."""
import json, os, random
from core import *
import parse
from parse import ATTRIBUTES, ELEMENTS, lexicon, read_lines, write_lines
from docs import Gen

DEFAULTS = ['auto', 'none', 'normal', '#000000', '#ffffff', '1', 'nonzero', 'baseline', 'sRGB', 'linearRGB', 'ltr', 'inline', 'accumulate', 'medium', '0deg', '0',
            'butt', 'miter', '4', 'start', 'visible', 'lr-tb']
CTORS = ['str', 'string', 'f64', 'i32', 'length', 'f64 unit', 'i32 unit', 'lengths', 'angle', 'numbers', 'color', 'path', 'points', 'transform', 'viewbox', 'aspect', 'fallback', 'keyword']
FACETS = {'T01': {'from_str', 'as_str', 'order', 'distinct', 'qname'}, 'T02': {'classes'}, 'T03': {'default', 'new_default'},
          'T04': {'kind', 'value', 'attribute', 'is'}, 'W05': {'shown'}}


def probes(seed, count):
    r = random.Random('probe-%s' % seed)
    names = ELEMENTS + ATTRIBUTES
    out = list(dict.fromkeys(names + [''] + [n.lower() for n in names] + [n.upper() for n in names] + [n + ' ' for n in names] + [' ' + n for n in names]
                             + [n[:-1] for n in names] + [n[1:] for n in names] + ['xlink:' + n for n in names] + ['svg:' + n for n in names]
                             + [n.replace('-', '_') for n in names] + [n[:1].upper() + n[1:] for n in names] + [n + '\0' for n in names]
                             + [''.join(p[:1].upper() + p[1:] for p in n.split('-')) for n in names]))
    abc = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:. \t\u00e9\u0130\u212a'
    while len(out) < count:
        k = r.random()
        n = r.choice(names)
        i = r.randrange(len(n) + 1)
        if k < .3: n = n[:i] + r.choice(abc) + n[i:]
        elif k < .5: n = n[:i] + r.choice(abc) + n[i + 1:]
        elif k < .6: n = n + r.choice(names)
        elif k < .7: n = n[:i] + n[i:][::-1]
        else: n = ''.join(r.choice(abc) for _ in range(r.randrange(1, 12)))
        out.append(n)
    return out


def check(rep):
    n = 12000 if rep.tier == 'quick' else 150000
    vals = Gen.VALUES + Gen.MORE + ['0', '-1', '2147483647', '1e3', '0.1', '12.25', '-16777217', '123456789mm', '16777217%', 'rgb(1,2,3)', 'M 1 2 L 3 4 z', '1 2 3 4']
    rows = [{'s': s} for s in probes(rep.seed, n)] + [{'s': v, 'c': c} for v in dict.fromkeys(vals) for c in CTORS]
    rc, out = harness(['tables', write_lines('tables.in', rows)])
    if rc != 0: raise ToolError('the tables did not answer (%d)' % rc)
    got = read_lines(out)
    for k in range(0, len(got), 40000):
        part = got[k:k + 40000]
        if k: part = [x for x in got if x['r'] in ('element', 'attribute')] + part
        inp = os.path.join(work(), 'rows.json')
        json.dump({'rows': part, 'lex': lexicon(DEFAULTS)}, open(inp, 'w'))
        t = Tlc('TableTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'TRACE_FILE': inp})
        for d in t.get('DIVERGE'):
            mine = sorted(set(d['bad']) & FACETS[rep.prop])
            if mine: rep.violation({'engine': 'tables', 'row': part[d['t'] - 1], 'differs': mine})
        rep.states += t.distinct
        rep.transitions += t.states
        rep.traces += len(part)
        for x in part[-2:]: rep.sample(x)
    import collections
    rep.extra['rows'] = dict(collections.Counter(x['r'] for x in got))
