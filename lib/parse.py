"""Parser (and writer) properties: documents parsed by the code, judged by Parse.tla / Writer.tla through TLC."""
import collections, json, os, re
from core import *
import docs
from docs import Gen, N, render, show_css, show_decls, WHITE

ATTR_LINKS = {'href', 'fill', 'stroke', 'clip-path', 'filter', 'marker', 'marker-end', 'marker-mid', 'marker-start', 'mask'}
CFG = 'SPECIFICATION Spec\nVIEW View\nINVARIANTS InvLinks InvSettled InvForest\nCHECK_DEADLOCK FALSE\n'


def names():
    s = open(os.path.join(SPEC, 'Names.tla')).read()
    g = lambda k: re.findall(r'"([^"]+)"', re.search(k + r' == <<(.*?)>>', s, re.S).group(1))
    return g('ElementNames'), g('AttributeNames')


ELEMENTS, ATTRIBUTES = names()


def write_lines(name, items):
    p = os.path.join(work(), name)
    with open(p, 'w', encoding='utf-8') as f:
        for x in items: f.write(json.dumps(x) + '\n')
    return p


def read_lines(path):
    out = []
    for l in open(path, encoding='utf-8').read().split('\n'):
        if not l: continue
        try: out.append(json.loads(l))
        except ValueError: break
    return out


def lexicon(values):
    values = sorted(set(values))
    inp = write_lines('lex.in', values)
    rc, out = harness(['lex', inp])
    r = read_lines(out)
    if rc != 0 or len(r) != len(values): raise ToolError('lex failed')
    return {'=' + v: x for v, x in zip(values, r)}


def block_decls(blocks):
    blocks = sorted(set(blocks))
    inp = write_lines('decls.in', blocks)
    rc, out = harness(['decls', inp])
    return dict(zip(blocks, read_lines(out)))


class Crash(Exception):
    pass


def run_parse(items, stall=40):
    """Runs the documents; a document that kills or hangs the process gets the result 'crash'."""
    out, todo, hangs = [], list(items), 0
    while todo:
        inp = write_lines('parse.in', todo)
        rc, o = harness(['parse', inp], timeout=700, stall=stall)
        r = read_lines(o)
        os.unlink(o)
        out += r[:len(todo)]
        todo = todo[len(r):]
        if rc == 0 and not todo: break
        if rc == 0: raise ToolError('parse answered too little')
        if not todo: raise ToolError('parse failed after its last answer (%d)' % rc)
        hangs += rc == -99
        out.append({'wf': True, 'xml': None, 'r': 'hang' if rc == -99 else 'crash', 's': [], 'w': [], 'again': [], 'rd': [], 'vs': []})
        todo = todo[1:]
        if hangs == 3: break    # enough to know; the rest of this batch is not run
    return out


ALL = {'P%02d' % i for i in range(1, 9)} | {'W%02d' % i for i in range(1, 7)}


def judge(f, case):
    """Properties that one facet of a divergence breaks."""
    k = f[0]
    if k == 'result':
        if case['r'] not in ('ok', 'nosvg', 'xml'): return ALL      # no document at all: nothing that was promised about it holds
        return {'P02'} | ({'P01'} if {case['r'], case.get('want')} == {'ok', 'nosvg'} else set())
    if k in ('skeleton', 'letters'): return {'P01'} | ({'P07'} if k == 'letters' else set())
    if k == 'tree': return {'P01'}
    if k == 'text': return {'P07', 'P01'} if case.get('blank') else {'P07'}
    if k == 'id': return {'P03'}
    if k == 'users': return {'P06'}
    if k == 'attrs': return {'P03'}
    if k == 'write': return {'W01', 'W03', 'W04'}
    if k == 'spell': return {'W06', 'W01'}
    if k == 'read': return {'W03', 'W04'}
    if k in ('reread', 'rewrite'): return {'W02'} | ({'W04'} if case['css'] == 'probe' else set())
    if k == 'attr':
        n, want, got = f[2]
        P = {'P08'}
        # there or not, or one of several attributes with this name
        if want == '' or got == '' or any(sum(a['n'] == n for a in x['at']) > 1 for x in case['xml']): P.add('P03')
        if n == 'space': P.add('P07')
        if case['styled']: P.add('P04')
        if case['css']: P.add('P05')
        if n in ATTR_LINKS and not (want == got): P.add('P06')
        if n in ATTR_LINKS and want == got and want in ('link', 'func', 'paint', 'string', 'color', 'none', 'current'): P.add('P06')
        return P
    return set()


def validate(rep, items, tag, opts=(), again=False, chunk=2500, read=False):
    """items: (text, css) with css = [{'tx', 'rules': [{'sel', 'decls'}]}]. Judges the code on all of them."""
    cases = run_parse([{'x': t, 'o': list(opts), 'again': again, 'read': read} for t, c in items])
    values, good = set(), []
    for (text, css), c in zip(items, cases):
        if c['xml'] is None:
            if len(rep.violations) < 60: rep.violation({'engine': 'parse', 'family': tag, 'document': text, 'result': c['r'], 'differs': ['crash']})
            continue
        if not c['wf']: raise ToolError('the generator made a document that is not XML: ' + text)
        c.update(css=css, o=list(opts), text=text)
        for x in c['xml']:
            for a in x['at'] + x['de']: values |= {a['v'], a['v'].strip(WHITE)}
        for s in css:
            for r in s['rules']:
                for d in r['decls']: values |= {d['v'], d['v'].strip(WHITE)}
        c['styled'] = bool(css) or any(x['de'] for x in c['xml'])
        c['blank'] = True
        good.append(c)
    if not good: return
    lex = lexicon(values)
    total = 0
    for k in range(0, len(good), chunk):
        part = good[k:k + chunk]
        inp = os.path.join(work(), 'cases.json')
        used = set()
        for c in part:
            for x in c['xml']:
                for a in x['at'] + x['de']: used |= {a['v'], a['v'].strip(WHITE)}
            for s in c['css']:
                for r in s['rules']:
                    for d in r['decls']: used |= {d['v'], d['v'].strip(WHITE)}
        json.dump({'cases': [{k: c[k] for k in ('xml', 'css', 'r', 's', 'w', 'o', 'again', 'rd', 'vs')} for c in part],
                   'lex': {'=' + v: lex['=' + v] for v in used} or {'=': lexicon([''])['=']}}, open(inp, 'w'))
        t = Tlc('ParseTrace', CFG, {'TRACE_FILE': inp})
        for d in t.get('DIVERGE'):
            c = part[d['t'] - 1]
            c['want'] = d['want']
            mine = [f for f in d['bad'] if rep.prop in judge(f, c)]
            if mine and len(rep.violations) < 60:
                rep.violation({'engine': 'parse', 'family': tag, 'document': c['text'], 'result': c['r'], 'expected result': d['want'],
                               'differs': mine, 'expected': d['exp'], 'observed': c['s'], 'outputs': c['w'],
                               'reread': [{k: v for k, v in a.items()} for a in c['again']] if any(f[0] in ('reread', 'rewrite') for f in mine) else None})
        rep.states += t.distinct
        rep.transitions += t.states
        rep.traces += len(part)
        os.unlink(inp)
    fam = rep.extra.setdefault('families', {})
    fam[tag] = fam.get(tag, 0) + len(good)
    rep.sample({'family': tag, 'document': good[len(good) // 2]['text']})


def random_items(seed, mode, count, size=8):
    g = Gen('%s-%s' % (seed, mode), ATTRIBUTES, ELEMENTS)
    g.big = size > 30
    made = [g.document(mode, size) for _ in range(count)]
    dec = block_decls([r['block'] for n, sh in made for rules in sh.values() for r in rules] or [''])
    items = []
    for nodes, sh in made:
        css = [{'tx': tx, 'rules': [{'sel': r['sel'], 'decls': dec[r['block']]} for r in rules]} for tx, rules in sh.items()]
        items.append((render(nodes, g.r), css))
    return items


def scope_items(rep, scope, n):
    """Documents that TLC enumerates."""
    vals = ['', 'red', 'nonsense', 'url(#a)', 'url(#z) blue', 'scale(2)', 'scale(1)', 'wrong', 'rotate(30)', '0.5', '7', 'abc', 'inherit', 'r',
            '#a', '#b', '#z', 'url(#b)', 'url(#z)', 'url(#a) red', 'url(#z) red', 'preserve', 'default', 'c', 'c d', 'none', 'url(#r)', 'a', 'b']
    lf = os.path.join(work(), 'lexicon.json')
    json.dump(lexicon(vals), open(lf, 'w'))
    t = Tlc('MCParse', 'SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Scope = "%s" N = %d\n' % (scope, n), {'LEX_FILE': lf})
    rep.states += t.distinct
    rep.transitions += t.states
    items = []
    for d in t.get('DOC'):
        css, text = [], {}
        for s in d['css']:
            text[s['tx']] = show_css(s['rules'])
            css.append({'tx': text[s['tx']], 'rules': s['rules']})
        nodes = []
        for x in d['xml']:
            nodes.append(N(x['k'], x['n'], x['par'], text.get(x['tx'], x['tx']), x['ns'], [(a['ns'], a['n'], a['v']) for a in x['at']],
                           show_decls(x['de']) if x['de'] else None))
        items.append((render(nodes), css))
    rep.extra.setdefault('scopes', []).append({'scope': scope, 'N': n, 'distinct_states': t.distinct, 'replayed': len(items)})
    return items


def outcomes(rep, texts, tag):
    """P02 on arbitrary texts."""
    cases = run_parse([{'x': t, 'o': ['dnn'], 'again': False, 'brief': True} for t in texts])
    texts = texts[:len(cases)]
    for t, c in zip(texts, cases):
        if c['xml'] is None: rep.violation({'engine': 'fuzz', 'family': tag, 'document': t if len(t) < 5000 else t[:200] + '...', 'result': c['r']})
    idx = [i for i, c in enumerate(cases) if c['xml'] is not None]
    inp = os.path.join(work(), 'cases.json')
    json.dump({'cases': [{k: cases[i][k] for k in ('wf', 'root', 'r', 'w')} for i in idx]}, open(inp, 'w'))
    t = Tlc('OutcomeTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'TRACE_FILE': inp})
    for d in t.get('DIVERGE'):
        c, x = cases[idx[d['t'] - 1]], texts[idx[d['t'] - 1]]
        rep.violation({'engine': 'fuzz', 'family': tag, 'document': x, 'result': c['r'], 'expected result': d['want']})
    rep.states += t.distinct
    rep.transitions += t.states
    rep.traces += len(idx)
    fam = rep.extra.setdefault('families', {})
    k = collections.Counter(c['r'] for c in cases)
    for r, n in k.items(): fam['%s: %s' % (tag, r)] = fam.get('%s: %s' % (tag, r), 0) + n
    rep.sample({'family': tag, 'text': texts[len(texts) // 2]})


def text_units(rep, n, texts, depths):
    """P07: every text unit TLC enumerates in MCText, put into text elements and parsed."""
    q = lambda s: '"%s"' % s.replace('\n', '\\n').replace('\t', '\\t')
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InvDefault InvPreserve InvLetters InvStable PrintUnit\n'
           'CONSTANTS N = %d Texts = {%s} Spaces = {"default", "preserve"} Depths = {%s} Emit = TRUE\n'
           % (n, ', '.join(map(q, texts)), ', '.join(map(str, depths))))
    t = Tlc('MCText', cfg, timeout=1500)
    rep.states += t.distinct
    rep.transitions += t.states
    units = [u for u in t.get('UNIT') if len({x['sp'] for x in u['u'] if x['dp'] == 0}) < 2]
    docs_, k = [], 200
    for i in range(0, len(units), k):
        out = ['<svg xmlns="http://www.w3.org/2000/svg">']
        for u in units[i:i + k]:
            top = [x['sp'] for x in u['u'] if x['dp'] == 0]
            s, last = '<text%s>' % (' xml:space="preserve"' if 'preserve' in top else ''), None
            for x in u['u']:
                if x['dp'] == 0:
                    if last == 0: s += '<!--c-->'
                    s += x['tx']
                else:
                    s += '<tspan>' * (x['dp'] - 1) + '<tspan xml:space="%s">' % x['sp'] + x['tx'] + '</tspan>' * x['dp']
                last = x['dp']
            out.append(s + '</text>')
        docs_.append(''.join(out) + '</svg>')
    cases = run_parse([{'x': d, 'o': [], 'again': False} for d in docs_])
    for i, c in enumerate(cases):
        part = units[i * k:(i + 1) * k]
        if c['r'] != 'ok':
            rep.violation({'engine': 'text units', 'result': c['r'], 'document': docs_[i][:3000]})
            continue
        nd = c['s']
        tops = [x + 1 for x in range(len(nd)) if nd[x]['tag'] == 'text']
        got = {x: [] for x in tops}
        for j, x in enumerate(nd):
            if x['k'] != 'text': continue
            p = x['par']
            while p and p not in got: p = nd[p - 1]['par']
            got.setdefault(p, []).append(x['tx'])
        for x, u in zip(tops, part):
            want = [s for s in u['t'] if s]
            if got[x] != want and len(rep.violations) < 60:
                rep.violation({'engine': 'text units', 'unit': u['u'], 'expected': want, 'observed': got[x]})
        if len(tops) != len(part): rep.violation({'engine': 'text units', 'document': docs_[i][:3000], 'observed': '%d text elements of %d' % (len(tops), len(part))})
    rep.traces += len(units)
    rep.extra.setdefault('scopes', []).append({'scope': 'text units', 'N': n, 'texts': texts, 'depths': depths, 'distinct_states': t.distinct, 'replayed': len(units)})
    if units: rep.sample({'unit': units[len(units) // 2]})


def writer_scope(rep, scope, n):
    """W01, W03, W04: every document and option combination TLC enumerates in MCWriter, built and written by the library."""
    t = Tlc('MCWriter', 'SPECIFICATION Spec\nINVARIANT Faithful\nCHECK_DEADLOCK FALSE\nCONSTANTS Scope = "%s" N = %d\n' % (scope, n), timeout=1500)
    rep.states += t.distinct
    rep.transitions += t.states
    d = t.get('WDOC')
    todo, got = list(d), []
    while todo:
        rc, out = harness(['build', write_lines('build.in', todo)])
        r = read_lines(out)
        got += r
        todo = todo[len(r):]
        if todo:
            got.append({'r': 'crash', 'w': [], 'wf': []})
            todo = todo[1:]
    for x, g in zip(d, got):
        if g['r'] != 'ok' or g['w'] != x['w'] or not all(g['wf']):
            if len(rep.violations) < 60:
                bad = [i for i in range(len(x['w'])) if i >= len(g['w']) or g['w'][i] != x['w'][i] or not g['wf'][i]]
                rep.violation({'engine': 'writer', 'scope': scope, 'document': x['nd'], 'result': g['r'],
                               'options': [x['o'][i] for i in bad], 'expected': [x['w'][i] for i in bad],
                               'observed': [g['w'][i] for i in bad if i < len(g['w'])]})
    rep.traces += len(d)
    rep.extra.setdefault('scopes', []).append({'scope': 'writer ' + scope, 'N': n, 'distinct_states': t.distinct, 'replayed': len(d), 'options': d[0]['o']})
    rep.sample({'scope': scope, 'output': d[len(d) // 2]['w'][0]})


# ------------------------------------------------------------------------------------------------
AMP = ['<svg xmlns="http://www.w3.org/2000/svg"><text>a&amp;lt;b</text></svg>',
       '<svg xmlns="http://www.w3.org/2000/svg"><text>&amp;x</text></svg>']


def amp_probe(rep):
    """W02, W04: the known finding on `&` in texts; anything else on these documents is a violation."""
    sub = Report(rep.prop, rep.tier, rep.seed, rep.level)
    keep = judge
    globals()['judge'] = lambda f, c: keep(f, dict(c, css='probe'))
    try: validate(sub, [(t, []) for t in AMP], 'ampersand in text', ['dnn'], again=True)
    finally: globals()['judge'] = keep
    for v in sub.violations:
        if {f[0] for f in v['differs']} <= {'reread', 'rewrite'} and v['document'] in AMP: v['finding'] = 'text-ampersand'
        rep.violation(v)


def deep(rep):
    """P02: nesting."""
    for tag in ('g', 'text', 'unknown'):
        mk = lambda d: '<svg xmlns="http://www.w3.org/2000/svg">' + '<%s>' % tag * d + 'x' + '</%s>' % tag * d + '</svg>'
        outcomes(rep, [mk(d) for d in (100, 1000, 2500)], 'nested ' + tag)
    sub = Report(rep.prop, rep.tier, rep.seed, rep.level)
    outcomes(sub, ['<svg xmlns="http://www.w3.org/2000/svg">' + '<g>' * 25000 + '</g>' * 25000 + '</svg>', '<svg xmlns="http://www.w3.org/2000/svg"/>'], 'nested 25000 times')
    for v in sub.violations:
        if v['result'] == 'crash' and v['document'].endswith('...'): v['finding'] = 'nesting-25000'
        rep.violation(v)


# property: [(mode, quick count, thorough count)], [(scope, quick N, thorough N)], options, again, read
PLAN = {
    'P01': ([('content', 700, 12000), ('mixed', 300, 6000), ('space', 300, 4000)], [('content', 3, 4), ('space', 2, 3)], (), False, False),
    'P03': ([('attrs', 700, 12000), ('mixed', 400, 6000), ('space', 200, 3000)], [('names', 2, 3), ('cascade', 0, 1)], (), False, False),
    'P04': ([('css', 500, 9000), ('mixed', 200, 4000)], [('cascade', 1, 2)], (), False, False),
    'P05': ([('css', 900, 16000)], [('select', 2, 3)], (), False, False),
    'P06': ([('links', 900, 16000), ('css', 200, 3000)], [('links', 2, 3), ('stylerefs', 2, 3)], (), False, False),
    'P07': ([('space', 700, 12000), ('mixed', 200, 4000)], [('space', 3, 4)], (), False, False),
    'P08': ([('attrs', 400, 9000)], [], (), False, False),
    'W01': ([('mixed', 200, 4000), ('attrs', 200, 4000), ('links', 200, 4000)], [], ('dnn', 's41', ''), False, False),
    'W02': ([(m, 130, 3000) for m in ('mixed', 'space', 'links', 'attrs', 'content', 'css', 'exact')], [('content', 2, 3), ('space', 2, 3)], ('dnn', 'snn', '', 's1t'), True, False),
    'W03': ([('mixed', 150, 3000), ('space', 150, 3000), ('attrs', 100, 2000)], [('content', 2, 3)], ('dnn', 's41', 'dt0', 's0n', ''), False, True),
    'W04': ([('attrs', 250, 5000), ('mixed', 150, 3000), ('values', 60, 1000)], [], ('dnn', 's4n'), False, True),
    'W06': ([('values', 500, 8000), ('attrs', 150, 3000)], [], ('', 'dnn', 'dnnh', 'dnnz', 'dnncz', 'dnnj', 'dnnp', 'dnnl', 'dnns', 'dnn,', 'dnn;', 's41hzcjpls,', 'd2thz;', 's4njc'), False, False),
}
WRITER = {'W01': ([('nest', 3), ('attrs', 3)], [('nest', 4), ('attrs', 4), ('strings', 2)]), 'W03': ([('nest', 3)], [('nest', 4), ('strings', 2)]),
          'W04': ([('strings', 2), ('attrs', 2)], [('strings', 3), ('attrs', 3)])}


def check(rep):
    q = rep.tier == 'quick'
    if rep.prop == 'P02':
        deep(rep)
        for k in range(1 if q else 12):
            if rep.violations and k: break
            g = Gen('%s-fuzz-%d' % (rep.seed, k), ATTRIBUTES, ELEMENTS)
            n = 2500 if q else 4000
            outcomes(rep, [g.fuzz(render(g.document(g.pick('mixed', 'css', 'links', 'space', 'attrs', 'content'))[0], g.r)) for _ in range(n)], 'edited documents')
            outcomes(rep, [g.inner_fuzz() for _ in range(n)], 'broken values and style sheets')
            outcomes(rep, [render(g.document(g.pick('mixed', 'css', 'links', 'space', 'attrs', 'content'), 20)[0], g.r) for _ in range(n // 2)], 'documents')
            outcomes(rep, list(g.type_matrix()) + list(g.near_values(150)), 'attribute x value, values one edit away')
            outcomes(rep, list(g.long_values(8)), 'long values')
            g.big = True
            outcomes(rep, [render(g.document(g.pick('mixed', 'css', 'links', 'space', 'attrs', 'content'), 150)[0], g.r) for _ in range(n // 20)], 'big documents')
        for m in ('content', 'mixed'): validate(rep, random_items(rep.seed, m, 150 if q else 3000), m)
        return
    modes, scopes, opts, again, read = PLAN[rep.prop]
    for sc, a, b in scopes:
        n = a if q else b
        if n: validate(rep, scope_items(rep, sc, n), 'scope ' + sc, opts, again, read=read)
    for sc, n in WRITER.get(rep.prop, ([], []))[0 if q else 1]: writer_scope(rep, sc, n)
    if rep.prop == 'P07':
        for n, texts, depths in ([(3, [' ', 'a', ' a ', 'a ', '\n b'], [0, 1, 2])] if q else
                                 [(3, [' ', 'a', ' a ', 'a ', '\n b', '  ', 'a b'], [0, 1, 2]), (4, [' ', 'a', ' a ', '\n b'], [0, 1, 2])]):
            text_units(rep, n, texts, depths)
    if rep.prop in ('W01', 'W02', 'P03'):
        g = Gen('all-%s' % rep.seed, ATTRIBUTES, ELEMENTS)
        validate(rep, [(g.all_attributes(), []) for _ in range(4 if q else 40)], 'every attribute at once', opts, again, read=read)
    if rep.prop == 'P03':
        g = Gen('twice-%s' % rep.seed, ATTRIBUTES, ELEMENTS)
        validate(rep, [(g.doubled(), []) for _ in range(12 if q else 200)], 'every attribute twice', opts, again, read=read)
    if rep.prop in ('P01', 'P07', 'P06', 'W01', 'W02', 'W03'):
        g = Gen('tower-%s' % rep.seed, ATTRIBUTES, ELEMENTS)
        validate(rep, [(g.tower(), []) for _ in range(8 if q else 150)], 'towers', opts, again, read=read)
        if rep.prop != 'P06': validate(rep, [(g.long_text(), []) for _ in range(24 if q else 400)], 'long texts', opts, again, read=read)
    if rep.prop in ('P08', 'P03'):
        for k in range(1 if q else 6):
            g = Gen('types-%s-%d' % (rep.seed, k), ATTRIBUTES, ELEMENTS)
            validate(rep, [(t, []) for t in g.type_matrix()], 'attribute x value, attribute x element')
            if rep.prop == 'P08':
                validate(rep, [(t, []) for t in g.near_values(60)], 'values one edit away')
                validate(rep, [(t, []) for t in g.long_values(2)], 'long values')
    for m, a, b in modes:
        n = a if q else b
        for k in range(0, n, 3000):
            if len(rep.violations) > 20: return
            validate(rep, random_items('%s-%d' % (rep.seed, k) if k else rep.seed, m, min(3000, n - k), 8 if k % 2 == 0 else 14), m, opts, again, read=read)
    for m, a, b in modes:       # far above the usual sizes
        if len(rep.violations) > 20: return
        validate(rep, random_items('big-%s' % rep.seed, m, 6 if q else 80, 60 if q else 90), 'big ' + m, opts, again, read=read)
    if rep.prop in ('W02', 'W04'): amp_probe(rep)
