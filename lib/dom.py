"""DOM properties: exhaustive scopes replayed into the code, recorded histories validated by the specification."""
import collections, json, os
from core import *

INSERT = ('append', 'prepend', 'after', 'before')
SET = ('set', 'setp', 'setif')
MAXOUT = 60


def judge(op, want, got, facets, e):
    """The properties that a divergence of one call breaks. facets: [(facet, node)]"""
    f = {x[0] for x in facets}
    P = set()
    if op == 'query':
        P.add('D02')
        if 'changed' in f: P.add('D10')
        return P
    if op == 'access':
        if f & {'get', 'val', 'has', 'con', 'len', 'emp', 'svg', 'is', 'panic'}: P.add('D06')
        if f & {'typ', 'tn', 'tg', 'changed'}: P.add('D10')
        return P
    if op == 'show':
        return {'W05'} | ({'D10'} if 'changed' in f else set())
    if op == 'write':
        if len(e.get('s', '')) > 3: return {'W06', 'W01'}
        if f == {'read'}: return {'W03', 'W04'}
        return {'W01', 'W03', 'W04'} | ({'D10'} if 'changed' in f else set())
    if op in ('drop', 'free'):
        return {'D11'}
    crash = 'crash' in f
    if 'tree' in f or 'count' in f:
        P.add('D01')
    if 'ends' in f:
        P.add('D02')    # the structure is right, but first/last child or the siblings are not told from it
    if f & {'links', 'sym'}:
        P.add('D04')
    if 'tree' in f and op not in INSERT + ('detach', 'remove', 'drain'):
        P.add('D10')
    if op in INSERT:
        if want == 'panic' or 'result' in f or crash: P.add('D03')
        if 'result' in f or crash: P.add('D01')
        if f & {'data', 'attrs', 'links'}: P.add('D10')
    elif op == 'detach':
        if 'result' in f or crash: P.add('D01')
        if f & {'data', 'attrs', 'links'}: P.add('D10')
    elif op == 'remove':
        P |= {'D07'}
        if any(a == 'attrs' or a == 'data' for a, n in facets): P.add('D10')
    elif op == 'drain':
        P |= {'D08'}
        if any(a == 'attrs' or a == 'data' for a, n in facets): P |= {'D07', 'D10'}
    elif op in ('copy', 'deep'):
        P |= {'D09'}
        if any(a in ('data', 'attrs') and n <= e.get('x', 0) for a, n in facets): P.add('D10')   # nodes that were there before
    elif op in SET:
        link = e.get('k') == 'link'
        if link and ('result' in f or crash or want in ('noid', 'cross', 'panic')): P.add('D05')
        if not link and ('result' in f or crash): P.add('D06')
        if 'attrs' in f: P.add('D06')
        if 'data' in f or any(a == 'attrs' and n != e.get('x') for a, n in facets) or ('links' in f and not link): P.add('D10')
        if 'links' in f and 'attrs' not in f and 'result' not in f: P.add('D04')
    elif op in ('unset', 'amut'):
        if f & {'attrs', 'result'} or crash: P.add('D06')
        if 'data' in f or any(a == 'attrs' and n != e.get('x') for a, n in facets): P.add('D10')
    else:
        P.add('D10')
        if crash or 'result' in f: P.add('D10')
    return P


# ------------------------------------------------------------------------------------------------
# Specification to code

CFG = '''SPECIFICATION Spec
VIEW Key
INVARIANT Inv
PROPERTY RefusalIsNoOp
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
CONSTANTS Scope = "%s" N = %d D = %d L = %d
'''

TREE = ('par', 'fc', 'lc', 'ps', 'ns', 'kids')
DATA = ('k', 'tag', 'id', 'tx', 'lv')


def compare(want, got):
    if len(want) != len(got):
        return [('count', 0)]
    out = []
    for i, (w, g) in enumerate(zip(want, got), 1):
        if any(w[k] != g[k] for k in TREE): out.append(('tree', i))
        if any(w[k] != g[k] for k in TREE) and w['par'] == g['par'] and w['kids'] == g['kids']: out.append(('ends', i))
        if any(w[k] != g[k] for k in DATA): out.append(('data', i))
        if w['at'] != g['at']: out.append(('attrs', i))
        if sorted(w['us']) != sorted(g['us']) or g['uc'] != len(g['us']) or g['iu'] != bool(g['us']): out.append(('links', i))
    return out


def dec(tok):
    v = tok.split(' ')
    g = lambda i: '' if i >= len(v) or v[i] == '~' else v[i]
    return {'op': v[0], 'x': int(v[1]), 'y': int(v[2]), 's': g(3), 'k': g(4), 't': g(5), 'fb': g(6)}


def scope(rep, name, n, d=1, l=0):
    """Replays every transition of one exhaustively explored scope."""
    t = Tlc('MCDom', CFG % (name, n, d, l))
    steps = t.get('STEP') + t.get('QUERY')
    # A violated refusal must be told from a missing one: the last call of each path decides.
    inp = os.path.join(work(), 'paths-%s.ndjson' % name)
    with open(inp, 'w') as f:
        for s in steps:
            f.write(json.dumps({'p': s['p']}) + '\n')
    rc, out = harness(['dom-replay', inp], timeout=300)
    got = open(out, encoding='utf-8').read().split('\n')
    got.pop()
    bad = []
    for s, l_ in zip(steps, got):
        try:
            g = json.loads(l_)
        except ValueError:
            rc = -98
            got = got[:steps.index(s)]
            break
        e = dec(s['p'].rstrip(';').split(';')[-1])
        if 'q' in s:
            if 'panic' in g['q']:
                fs = [('panic', 0)]
            else:
                fs = [(k, 0) for k in s['q'] if s['q'][k] != g['q'][k]]
            if fs: bad.append((e, 'ok', g['r'], fs, s['p'], s['q'], g['q']))
        else:
            fs = compare(s['s'], g['s']) if g['r'] != 'unreadable' else [('crash', 0)]
            if g['r'] != s['r']: fs.append(('result', 0))
            if fs: bad.append((e, s['r'], g['r'], fs, s['p'], s['s'], g['s']))
    if len(got) < len(steps):
        s = steps[len(got)]
        e = dec(s['p'].rstrip(';').split(';')[-1])
        bad.append((e, s.get('r', 'ok'), 'crash' if rc != -99 else 'hang', [('crash', 0), ('result', 0), ('tree', 0)], s['p'], None, None))
    for e, want, g, fs, path, sw, sg in bad:
        if rep.prop in judge(e['op'], want, g, fs, e):
            rep.violation({'engine': 'spec-to-code', 'scope': name, 'calls': path, 'expected result': want, 'result': g,
                           'differs': sorted({a for a, b in fs}), 'nodes': sorted({b for a, b in fs}), 'expected': sw, 'observed': sg})
            if len(rep.violations) > MAXOUT: break
    rep.states += t.distinct
    rep.transitions += t.states
    rep.traces += len(steps)
    rep.extra.setdefault('scopes', []).append({'scope': name, 'N': n, 'D': d, 'L': l, 'distinct_states': t.distinct, 'replayed': len(steps)})
    if steps: rep.sample({'scope': name, 'calls': steps[len(steps) // 2]['p']})
    os.unlink(out)
    os.unlink(inp)


# ------------------------------------------------------------------------------------------------
# Code to specification

TRACE_CFG = 'SPECIFICATION Spec\nVIEW View\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


def read_traces(path):
    traces, cur = [], None
    for l in open(path, encoding='utf-8'):
        try:
            e = json.loads(l)
        except ValueError:
            break
        if 'op' in e:
            cur.append(e)
        elif 't' in e:
            cur = []
            traces.append(cur)
    return traces


def histories(rep, seed, count, profiles):
    """Records random histories of the real library and lets TLC check them against Dom."""
    rc, out = harness(['dom-random', seed, count, ','.join(profiles)], timeout=120)
    traces = read_traces(out)
    if rc != 0:
        # the announced trace hangs or aborts: run it alone to see which call
        n = len(traces) - 1
        traces.pop()
        rc2, out2 = harness(['dom-random', seed, count, ','.join(profiles), n], timeout=30)
        last, ops = None, []
        for l in open(out2, encoding='utf-8', errors='replace'):
            try:
                e = json.loads(l)
            except ValueError:
                break
            if 'try' in e: last = e['try']
            elif 'op' in e: ops.append(e)
        if last is None or rc2 == 0:
            raise ToolError('the harness failed (%d) and the failure does not repeat' % rc)
        if rep.prop in judge(last['op'], 'ok', 'crash', [('crash', 0), ('tree', 0), ('panic', 0), ('result', 0)], last):
            rep.violation({'engine': 'code-to-spec', 'seed': seed, 'trace': n, 'profiles': profiles, 'crash or hang in': last,
                           'exit': rc2, 'calls before': len(ops)})
        traces.append(ops)          # what it did before may already be wrong
    if not traces:
        return
    for c in range(0, len(traces), 1500):
        part = traces[c:c + 1500]
        inp = os.path.join(work(), 'traces.json')
        json.dump({'traces': part}, open(inp, 'w'))
        t = Tlc('DomTrace', TRACE_CFG, {'TRACE_FILE': inp})
        for d in t.get('DIVERGE'):
            e = part[d['t'] - 1][d['i'] - 1]
            fs = [(a, b) for a, b in d['bad']]
            got = e['r']
            if rep.prop in judge(e['op'], d['want'], got, fs, e):
                rep.violation({'engine': 'code-to-spec', 'seed': seed, 'trace': c + d['t'] - 1, 'event': d['i'], 'profiles': profiles,
                               'call': {k: e[k] for k in ('op', 'x', 'y', 's', 'k', 't', 'fb')}, 'result': got,
                               'expected result': d['want'], 'differs': fs, 'observed': e.get('q', e['d']),
                               'expected': d.get('exp'),
                               'history': [' '.join(str(x[k]) for k in ('op', 'x', 'y', 's', 'k', 't', 'fb', 'r')) for x in part[d['t'] - 1][:d['i']]]})
                if len(rep.violations) > MAXOUT: break
        expected = sum(len(x) for x in part)
        if not t.get('DIVERGE') and t.distinct < expected:
            raise ToolError('TLC checked only %d of %d events' % (t.distinct, expected))
        rep.states += t.distinct
        rep.transitions += t.states
        rep.traces += len(part)
        os.unlink(inp)
    rep.extra['events'] = rep.extra.get('events', 0) + sum(len(x) for x in traces)
    ops = collections.Counter(e['op'] for x in traces for e in x)
    tot = rep.extra.setdefault('calls', {})
    for k, v in ops.items():
        tot[k] = tot.get(k, 0) + v
    if traces[0]: rep.sample({'profile': profiles[0], 'first calls': [' '.join(str(x[k]) for k in ('op', 'x', 'y', 's', 'k', 't', 'fb', 'r')) for x in traces[0][:12]]})
    os.unlink(out)


PLAN = {
    # property: (quick scopes, thorough scopes, profiles, quick traces, thorough traces)
    'D01': ([('tree', 3), ('tree', 4)], [('tree', 3), ('tree', 4), ('remove', 4, 1, 2), ('copy', 4, 1, 2)], ['tree', 'wide', 'deep', 'mixed', 'remove', 'copy', 'hub', 'tower']),
    'D02': ([('query', 3)], [('query', 3), ('query', 4)], ['tree', 'wide', 'deep', 'mixed', 'hub', 'tower']),
    'D03': ([('tree', 3), ('tree', 4)], [('tree', 3), ('tree', 4)], ['tree', 'deep', 'mixed', 'hub', 'tower']),
    'D04': ([('links', 3, 2), ('remove', 3, 1, 3), ('copy', 3, 1, 2)], [('links', 3, 3), ('links', 4, 2), ('remove', 4, 1, 3), ('copy', 4, 1, 2)], ['links', 'remove', 'copy', 'mixed', 'wide', 'hub']),
    'D05': ([('links', 3, 2), ('links', 4, 2)], [('links', 3, 3), ('links', 4, 3)], ['links', 'mixed', 'remove', 'hub']),
    'D06': ([('links', 3, 2)], [('links', 3, 3), ('links', 4, 2)], ['attrs', 'links', 'mixed', 'hub']),
    'D07': ([('remove', 3, 1, 3), ('kinds', 3)], [('remove', 3, 1, 6), ('kinds', 4), ('remove', 4, 1, 3)], ['remove', 'mixed', 'wide', 'deep', 'hub', 'tower']),
    'D08': ([('drain', 3, 1, 2), ('kinds', 3)], [('kinds', 4), ('drain', 3, 1, 4), ('drain', 4, 1, 2)], ['remove', 'mixed', 'wide', 'deep', 'hub', 'tower']),
    'D09': ([('copy', 3, 1, 3), ('kinds', 3)], [('kinds', 4), ('copy', 3, 1, 6), ('copy', 4, 1, 2)], ['copy', 'mixed', 'wide', 'deep', 'hub', 'tower']),
    'D10': ([('links', 3, 2)], [('links', 3, 3), ('tree', 4)], ['mixed', 'attrs', 'tree', 'copy', 'write', 'hub']),
    'D11': ([], [], ['remove', 'copy', 'links', 'mixed', 'wide', 'deep', 'tree', 'attrs', 'hub', 'tower']),
    'W05': ([], [], ['attrs', 'write', 'mixed', 'hub', 'page']),
    'W01': ([], [], ['write', 'xml', 'page', 'notation']),
    'W03': ([], [], ['xml', 'write', 'page']),
    'W04': ([], [], ['xml', 'page']),
    'W06': ([], [], ['notation']),
}


def check(rep):
    quick, thorough, profiles = PLAN[rep.prop]
    if rep.tier == 'quick':
        for s in quick: scope(rep, *s)
        histories(rep, rep.seed, 500, profiles)
    else:
        for s in thorough: scope(rep, *s)
        for k in range(8):
            histories(rep, rep.seed * 1000 + k, 1500, profiles)
            if rep.violations: break
