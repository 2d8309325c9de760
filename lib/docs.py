"""Documents: rendering of XML trees given as node lists, and random documents."""
import random

NS = {'svg': '', 'other': 'o:', '': 'n:'}
ANS = {'': '', 'svg': 's:', 'xlink': 'xlink:', 'xml': 'xml:', 'other': 'o:'}
ROOT = [('xmlns', 'http://www.w3.org/2000/svg'), ('xmlns:xlink', 'http://www.w3.org/1999/xlink'),
        ('xmlns:s', 'http://www.w3.org/2000/svg'), ('xmlns:o', 'urn:other')]
WHITE = ''.join(map(chr, [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]))


def esc(s, q=None):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace(']]>', ']]&gt;').replace('\r', '&#13;')
    if q:
        s = s.replace(q, '&quot;' if q == '"' else '&apos;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def N(k, n='', par=0, tx='', ns='svg', at=(), style=None):
    """One node of a document under construction; attributes: (ns, name, value)"""
    return {'k': k, 'n': n, 'par': par, 'tx': tx, 'ns': ns if k == 'element' else '', 'at': list(at), 'style': style}


def render(nodes, rnd=None):
    """Text of a document. nodes: preorder list with 1-based parents."""
    kids = {}
    prefixed = bool(rnd) and rnd.random() < .1      # svg:rect instead of rect
    for i, x in enumerate(nodes, 1):
        kids.setdefault(x['par'], []).append(i)

    def go(i):
        x = nodes[i - 1]
        if x['k'] == 'comment': return '<!--%s-->' % x['tx']
        if x['k'] == 'pi': return '<?pi %s?>' % x['tx']
        if x['k'] == 'text':
            if rnd and rnd.random() < .1 and x['tx'].strip() and ']]>' not in x['tx'] and '\r' not in x['tx']: return '<![CDATA[%s]]>' % x['tx']
            if rnd and rnd.random() < .1: return ''.join('&#x%x;' % ord(c) if rnd.random() < .5 else esc(c) for c in x['tx'])
            return esc(x['tx'])
        q = "'" if rnd and rnd.random() < .5 else '"'
        pre = NS[x['ns']]
        if x['ns'] == 'svg' and prefixed: pre = 's:'
        at = [(n, v) for n, v in ROOT if n != 'xmlns' or not prefixed] if x['par'] == 0 else []
        if x['ns'] == '': pre, at = '', at + ([('xmlns', '')] if not prefixed else [])
        elif pre == '' and x['par'] and nodes[x['par'] - 1]['ns'] == '': at.append(('xmlns', ROOT[0][1]))
        at += [(ANS[ns] + n, v) for ns, n, v in x['at']]
        if x['style'] is not None: at.append(('style', x['style']))
        s = '<' + pre + x['n'] + ''.join(' %s=%s%s%s' % (n, q, esc(v, q), q) for n, v in at)
        inner = ''.join(go(k) for k in kids.get(i, ()))
        if not inner and not kids.get(i): return s + '/>'
        return s + '>' + inner + '</' + pre + x['n'] + '>'
    return ''.join(go(i) for i in kids.get(0, ()))


# ------------------------------------------------------------------------------------------------
# CSS

def show_sub(q):
    return {'has': '[%(n)s]', 'is': '[%(n)s="%(v)s"]', 'word': '[%(n)s~="%(v)s"]', 'dash': '[%(n)s|="%(v)s"]',
            'first-child': ':first-child', 'pseudo': ':%(v)s'}[q['k']] % q


def show_sel(sel, rnd=None):
    out = ''
    for c in sel:
        comb = c['c']
        out += {'': '', ' ': ' ', '>': ' > ', '+': ' + '}[comb] if not rnd or rnd.random() < .5 else comb
        body = ''
        for q in c['subs']:
            if q['k'] == 'word' and q['n'] == 'class' and q['v'][0].isalpha() and (not rnd or rnd.random() < .8): body += '.' + q['v']
            elif q['k'] == 'is' and q['n'] == 'id' and q['v'][0].isalpha() and (not rnd or rnd.random() < .8): body += '#' + q['v']
            else: body += show_sub(q)
        ty = c['ty']
        if ty == '*' and body and (not rnd or rnd.random() < .7): ty = ''
        out += ty + body
    return out


def show_decls(decls):
    return ';'.join('%s:%s' % (d['n'], d['v']) for d in decls)


def show_css(rules):
    return '\n'.join('%s{%s}' % (show_sel(r['sel']), show_decls(r['decls'])) for r in rules)


class Gen:
    """Random documents. Every profile leans on some parts of the parser."""

    SVG = ['svg', 'g', 'rect', 'path', 'text', 'tspan', 'tref', 'a', 'title', 'desc', 'use', 'linearGradient', 'style', 'defs', 'pattern', 'image', 'textPath', 'altGlyph', 'switch', 'metadata', 'filter', 'set', 'animate', 'glyph', 'symbol']
    BAD = ['unknown', 'Rect', 'html', 'font2', 'flowRoot']
    VALUES = ['red', '#0f0', '1', '0.5', '-3', '7', '10mm', '50%', 'none', 'inherit', 'currentColor', 'url(#a)', 'url(#b)', 'url(#zz)', 'url(#a) red', 'url(#zz) none',
              'url(#zz) currentColor', 'url(#b) #123456', '#a', '#b', '#zz', 'abc', '', ' ', ' 5 ', '1 2 3', '1,2 3mm', 'M 10 20 L 30 40', 'M 10', 'M10 20 bad', 'm', 'translate(10)', 'scale(1)',
              'translate(0 0)', 'scale(2) rotate(30)', 'matrix(1 0 0 1 0 0)', 'trans', '0 0 100 50', 'xMidYMid slice', 'none slice', 'auto', 'normal', 'baseline', 'sub', 'medium', 'bold', '30deg', '2rad', '1e2', '1e', '.5.5',
              '10px', '10 px', 'rgb(10,20,30)', 'rgb(10%,20%,30%)', 'rgba(1,2,3,0.5)', 'RED', '#12', 'preserve', 'default', 'inherited', '\u00e9\u2603', "it's", 'a"b', 'a<b', 'a&b', '0', '1.0', '0.123456789', '-0.5', '1000000', 'url(a)', 'url(#)', '#', '0,0 10,10', '0,0 10', 'nonzero', 'hidden', 'text/css',
              'http://a.b/c#d', '1 2', '5em', '5in 6ex', '1.5turn', '-7', '+3', '0.5 ', '\n2\n', '\u00a03', 'a\tb', 'a\nb', 'matrix(1 0 0 1 0 5)', 'skewX(0)', '\ufeff5', '\x85\u2028', '\U0010ffff\x7f\ufffd', 'inherit ', 'url(#a)x', 'url(#a) x', 'url( #a )', "url('#a')", 'none none']

    def __init__(self, seed, attributes, elements):
        self.r = random.Random(seed)
        self.attributes, self.elements = attributes, elements
        self.big = False        # far above the usual sizes
        self.shape = ''         # 'wide', 'deep'
        self.ids = ['a', 'b', 'c']

    def pick(self, *a): return self.r.choice(a[0] if len(a) == 1 else a)
    def chance(self, p): return self.r.random() < p

    def text(self, amp=False):
        r = self.r
        w = ['a', 'b', 'word', '\u00e9', '\u2603', 'x<y', ']]>', "'q'", '"', '>', '\U0001d11e', 'A  B', '1', '\x85', '\u2028x', '\ufeff', '\U0010ffff\x7f']
        s = ['', ' ', '  ', '\n', '\t', ' \n ', '\n    ', '\u00a0', '', ' ']
        out = r.choice(s)
        for _ in range(r.choice([1, 2, 3, 5, 40, 120]) if self.big and r.random() < .2 else r.randrange(3)): out += r.choice(w) + r.choice(s)
        if r.random() < .03: out += '\r' + r.choice(s)
        return out

    def selector(self, attrs=()):
        sel = []
        ids = self.ids
        for i in range(self.pick([1, 1, 1, 2, 2, 3] if not self.big else [1, 1, 2, 3, 4, 5, 6])):
            subs = []
            for _ in range(self.pick([0, 0, 1, 1, 1, 2] if not self.big else [0, 0, 0, 1, 1, 2, 3])):
                k = self.pick(['class'] * 4 + ['id'] * 2 + ['attr'] * 3 + ['first'] * 2 + ['pseudo'])
                if k == 'class': subs.append({'k': 'word', 'n': 'class', 'v': self.pick('c1', 'c2', 'c3')})
                elif k == 'id': subs.append({'k': 'is', 'n': 'id', 'v': self.pick(list(ids))})
                elif k == 'first': subs.append({'k': 'first-child', 'n': '', 'v': ''})
                elif k == 'pseudo': subs.append({'k': 'pseudo', 'n': '', 'v': self.pick('hover', 'link', 'visited', 'active', 'focus')})
                else: subs.append({'k': self.pick('has', 'is', 'word', 'dash'), 'n': self.pick('class', 'lang', 'data-x', 'id', 'width', 'type'), 'v': self.pick('c1', 'c2', 'en', 'a', 'x', '5')})
            ty = self.pick(['*', '*', 'rect', 'g', 'svg', 'text', 'tspan', 'foo', 'use'])
            sel.append({'c': '' if i == 0 else self.pick(' ', ' ', '>', '+'), 'ty': ty, 'subs': subs})
        return sel

    CSSN = ['fill', 'fill', 'stroke', 'opacity', 'transform', 'marker', 'marker-start', 'marker-mid', 'font-size', 'font-family', 'visibility', 'stroke-width', 'filter', 'clip-path', 'color', 'display', 'stop-color', 'stroke-dasharray', 'letter-spacing',
            'x', 'width', 'href', 'id', 'class', 'd', 'unknown', 'space', 'style', 'baseline-shift', 'fill-opacity', 'mask', 'stroke-miterlimit', 'kerning', 'gradientTransform', 'glyph-orientation-vertical']
    CSSV = ['red', '#00ff00', 'url(#a)', 'url(#b)', 'url(#zz)', 'url(#a) blue', 'url(#zz) green', 'none', 'inherit', '0.5', '3', '-1', 'scale(2)', 'scale(1)', 'rotate(45)', 'translate(5)', 'normal', 'auto', 'Arial', '12px', 'bad()', '5mm', 'currentColor', 'hidden',
            '1,2,3', 'bold', '10%', "'q'", '#zz']

    def fitting(self, n):
        """A value that the attribute can have, or else any."""
        iri = ['url(#a)', 'url(#b)', 'url(#c)', 'url(#zz)']
        if n == 'href': l = ['#a', '#b', '#c', '#zz', 'x.svg', '#']
        elif n in ('fill', 'stroke'): l = iri + ['url(#a) blue', 'url(#b) none', 'url(#zz) currentColor', 'red', '#123', 'none', 'inherit', 'currentColor']
        elif n.startswith('marker') and n[6:7] in ('', '-') or n in ('filter', 'mask', 'clip-path'): l = iri + ['none', 'inherit']
        elif n.endswith('color') : l = ['red', '#0f0', 'inherit', 'currentColor', 'rgb(1,2,3)']
        elif n.endswith('ransform'): l = ['scale(2)', 'scale(1)', 'rotate(45)', 'translate(5)', 'translate(0)', 'matrix(1 0 0 1 0 0)']
        elif n.endswith('opacity') or n in ('k1', 'k2', 'k3', 'k4'): l = ['0.5', '0', '1', '-1', '7', 'inherit', '1.0']
        elif n in ('x', 'y', 'dx', 'dy', 'width', 'font-size', 'stroke-width', 'letter-spacing', 'baseline-shift', 'offset', 'stroke-dashoffset'): l = ['5', '10mm', '50%', '0', '-3px', '1.5em', '1 2', 'inherit', 'normal', 'sub', 'medium']
        elif n in ('rotate', 'stdDeviation', 'baseFrequency', 'stroke-dasharray'): l = ['1 2 3', '5', '0.5,1', 'none', 'inherit', '']
        elif n in ('points', 'd'): l = ['0,0 10,10', '1 2 3 4', 'M 1 2', 'M 10 20 L 30 40', 'M 0 0 h 5 z', '']
        elif n == 'space': l = ['preserve', 'default', '']
        else: l = ['normal', 'auto', 'none', 'inherit', 'Arial', 'bold', 'hidden', '5']
        return self.pick(l)

    def decls(self, n=None):
        out = []
        for _ in range(self.pick([0, 1, 1, 1, 2, 3] if not self.big else [0, 1, 2, 4, 12, 20]) if n is None else n):
            nm = self.pick(self.CSSN)
            s = '%s%s:%s%s' % (nm, self.pick('', '', ' '), self.pick('', ' '), (self.fitting(nm) or 'none') if self.chance(.6) else self.pick(self.CSSV))
            if self.chance(.05): s += ' !important'
            out.append(s)
        s = self.pick(';', '; ', ';\n').join(out)
        if out and self.chance(.3): s += ';'
        if self.chance(.05): s = '/*c*/' + s
        return s

    def sheet(self):
        rules, css = [], ''
        for _ in range(self.pick([0, 1, 1, 2, 3, 4] if not self.big else [1, 3, 8, 20])):
            sels = [self.selector() for _ in range(self.pick([1, 1, 1, 2] if not self.big else [1, 1, 2, 3, 6]))]
            block = self.decls()
            css += self.pick(', ', ',').join(show_sel(s, self.r) for s in sels) + self.pick('', ' ') + '{' + block + '}' + self.pick('', '\n', ' ')
            if self.chance(.05): css += '/* x */'
            if self.chance(.05): css += '@media print { rect { fill:black } } '
            for s in sels: rules.append({'sel': s, 'block': block})
        return css, rules

    def attrs(self, mode):
        at, seen = [], set()
        r = self.r
        n = {'attrs': 6, 'mixed': 3, 'css': 2, 'links': 2, 'content': 1, 'space': 0}[mode]
        if self.big: n = self.pick(n, n, 3 * n + 3, 12, 30)
        if self.chance(.5 if mode != 'links' else .7): at.append(('', 'id', self.pick(['a', 'b', 'c', 'd', 'a', 'b', ' e', '', '\u00e9', 'x y'] if mode in ('attrs', 'mixed') and not (self.big and self.chance(.6)) else self.ids)))
        if mode in ('css', 'mixed', 'attrs') and self.chance(.6): at.append(('', 'class', self.pick('c1', 'c2', 'c1 c2', 'c3 c1', ' c2', 'c1-c2', 'c2  c3')))
        if mode == 'links' and self.chance(.1): at = [('', 'id', self.pick(' a', 'a ', 'A', '\u00e9', 'a b', 'e'))]
        if mode == 'css' and self.chance(.15): at.append((self.pick('xml', 'xlink', 'svg', 'other'), self.pick('class', 'lang', 'data-x', 'type', 'class'), self.pick('c1', 'c2', 'c1 c2', 'en', 'x')))
        if mode == 'css' and self.chance(.3): at.append(('', self.pick('lang', 'data-x', 'width'), self.pick('en', 'en-US', 'x', '5', 'c1', 'a x')))
        for _ in range(r.randrange(n + 1)):
            ns = self.pick(['', '', '', '', 'svg', 'xlink', 'xml', 'other'] if mode in ('attrs', 'mixed') else [''])
            if mode == 'links': nm = self.pick('href', 'fill', 'stroke', 'filter', 'mask', 'clip-path', 'marker-start', 'marker', 'marker-end')
            elif mode == 'css': nm = self.pick('fill', 'stroke', 'opacity', 'transform', 'marker-start', 'font-size', 'filter', 'x')
            elif self.chance(.15): nm = self.pick('unknown', 'Fill', 'data-x', 'xx', 'onfoo', 'fill-', 'FILL')
            elif self.chance(.4): nm = self.pick('fill', 'x', 'space', 'href', 'transform', 'd', 'points', 'opacity', 'unicode', 'style', 'offset', 'width', 'viewBox', 'font-size', 'type')
            else: nm = self.pick(self.attributes)
            if nm == 'xmlns' and not ns: nm = 'x'
            if nm in ('id', 'class'): ns = ns or 'xlink'
            if nm == 'style': ns = ns or 'svg'
            if nm == 'href' and mode != 'attrs': ns = 'xlink'
            if nm == 'space' and mode != 'attrs': ns = 'xml'
            if (ns, nm) in seen or (ns, nm) in {(a, b) for a, b, c in at}: continue
            seen.add((ns, nm))
            if mode == 'links':
                i = self.pick(' a', 'A', 'e', '\u00e9', 'a b') if self.chance(.08) else self.pick('a', 'b', 'c', 'zz', '') if not self.big or self.chance(.5) else self.pick(self.ids)
                v = '#' + i if nm == 'href' else 'url(#%s)' % i + (self.pick('', '', ' red', ' none', ' currentColor', ' zz') if nm in ('fill', 'stroke') else '')
                if self.chance(.1): v = self.pick('none', 'inherit', 'x.svg')
            elif self.chance(.4): v = self.fitting(nm)
            elif mode == 'css': v = self.pick(self.CSSV)
            elif nm == 'space': v = self.pick('preserve', 'default', 'preserve ', 'Preserve', 'preserved')
            else: v = self.pick(self.VALUES)
            at.append((ns, nm, v))
        # the same name again in another namespace
        if mode in ('attrs', 'mixed'):
            for ns, nm, v in list(at):
                ns2 = self.pick('', 'svg', 'xlink', 'xml', 'other')
                if self.chance(.15) and (ns2, nm) not in {(a, b) for a, b, c in at} and (ns2 or nm not in ('id', 'class', 'style')):
                    at.append((ns2, nm, self.pick('a', 'b', 'q') if nm == 'id' else self.fitting(nm) if self.chance(.7) else self.pick(self.VALUES)))
        r.shuffle(at)
        return at

    def document(self, mode, size=8):
        """(nodes, sheets): sheets maps the text of style elements to rules"""
        if mode in ('values', 'exact'): return self.values_document(mode == 'exact')
        if self.big:
            self.shape = self.pick('wide', 'wide', 'deep', '')
            self.ids = ['a', 'b', 'c'] + ['i%d' % k for k in range(self.pick(0, 10, 40))]
        r = self.r
        sheets = {}
        nodes = []
        if self.chance(.2): nodes.append(N('comment', tx=' top'))
        if self.chance(.05): nodes.append(N('pi', tx='x'))
        root = N('element', 'svg', at=self.attrs(mode))
        if mode == 'content' and self.chance(.08): root['n'] = self.pick('g', 'unknown', 'SVG')
        elif mode == 'content' and self.chance(.06): root['ns'] = 'other'
        nodes.append(root)
        top = len(nodes)
        for _ in range(r.randrange(1, size + 1) if not self.big else size):
            # hang on the rightmost path
            path, i = [], len(nodes)
            while i >= top:
                if nodes[i - 1]['k'] == 'element': path.append(i)
                i = nodes[i - 1]['par'] if nodes[i - 1]['par'] else 0
            p = self.pick(path[:2] if self.chance(.6) else path)
            if self.shape == 'deep' and self.chance(.85): p = path[0]
            if self.shape == 'wide' and self.chance(.85): p = path[-2:][0] if len(path) > 1 and nodes[path[-2] - 1]['n'] != 'style' else path[-1]
            last = [k for k, x in enumerate(nodes) if x['par'] == p]
            kind = r.random()
            if mode in ('css', 'mixed') and kind < .2 or mode in ('attrs', 'content') and kind < .05:
                css, rules = self.sheet()
                sns = self.pick(['svg'] * 8 + ['other'])
                at = [('', 'type', self.pick('text/css', 'text/css', 'text/plain', ''))] if self.chance(.3) else []
                if self.chance(.2): at += [a for a in self.attrs('links') if a[1] != 'type']
                nodes.append(N('element', 'style', p, ns=sns, at=at))
                q = len(nodes)
                if self.chance(.05): nodes.append(N('comment', par=q, tx='c'))
                if css.strip(): nodes.append(N('text', par=q, tx=css)); sheets.setdefault(css, rules)
                continue
            if kind < {'content': .35, 'space': .5, 'mixed': .4}.get(mode, .12):
                if last and nodes[last[-1]]['k'] == 'text': continue
                if nodes[p - 1]['n'] == 'style' : continue
                tx = self.text()
                if tx: nodes.append(N('text', par=p, tx=tx))
                continue
            if kind < {'content': .45, 'space': .55, 'mixed': .45}.get(mode, .14):
                nodes.append(N('comment', par=p, tx=self.pick('c', ' x ', '', '<&>', 'a-b')))
                continue
            if kind > .97: nodes.append(N('pi', par=p, tx='y')); continue
            if mode == 'space': tag = self.pick('text', 'tspan', 'tspan', 'tspan', 'tref', 'a', 'textPath', 'text', 'g', 'title', 'switch')
            elif mode in ('content', 'mixed') and self.chance(.12): tag = self.pick(self.BAD)
            elif mode in ('attrs', 'content') and self.chance(.3): tag = self.pick(self.elements)
            elif mode == 'css': tag = self.pick('g', 'rect', 'text', 'use', 'foo', 'linearGradient', 'svg')
            elif mode == 'links': tag = self.pick('g', 'rect', 'use', 'linearGradient', 'pattern', 'style', 'foo')
            else: tag = self.pick(self.SVG)
            ns = 'svg' if not (mode in ('content', 'mixed', 'css') and self.chance(.08)) else self.pick('other', '')
            e = N('element', tag, p, ns=ns, at=self.attrs(mode))
            if mode == 'space' and self.chance(.4): e['at'] = [a for a in e['at'] if a[:2] != ('xml', 'space')]; e['at'].append(('xml', 'space', self.pick('preserve', 'preserve', 'preserve', 'default', 'default', '', 'x', 'preserved', 'Preserve', 'preserve x', 'pre')))
            if mode in ('css', 'mixed') and self.chance(.35) or mode == 'links' and self.chance(.1): e['style'] = self.decls()
            nodes.append(e)
        return nodes, sheets

    # --------------------------------------------------------------------------------------------
    TOKENS = ['<', '>', '/>', '</', '&', ';', '"', "'", '=', '{', '}', '(', ')', ':', ',', '#', '.', '*', '+', '[', ']', '@', '!', '~', '|', '/*', '*/', '<!--', '-->',
              '<![CDATA[', ']]>', '<?', '?>', ' ', '\n', '\t', '\0', '\x01', '\u00e9', '\u00a0', '\ufeff', '\U0001d11e', '&amp;', '&#0;', '&#x41;', '&lt;', '&x;', '<!DOCTYPE svg [<!ENTITY x "y">]>',
              'url(#a)', 'url(', '#', 'e', '-', '1e400', '1e-400', '99999999999999999999', 'NaN', 'inf', '0x1', '%', 'mm', 'M', 'z', 'A 1 1 0 1 1 5 5', 'translate(', 'rotate(1,2)', 'matrix(1)', 'preserve', 'xml:space="preserve"',
              'style="fill:red"', 'id="a"', 'class="c1"', 'xmlns=""', 'xmlns:x="u"', 'x:', '<svg/>', '<g>', '</g>', '<style>', '</style>', '<style><![CDATA[*{fill:red}]]></style>', 'rect', ':first-child', ':foo', ':lang(en)', '!important', '--', '\\']

    def fuzz(self, text):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 8])):
            i = r.randrange(len(text) + 1)
            k = r.random()
            if k < .45: text = text[:i] + r.choice(self.TOKENS) + text[i:]
            elif k < .65: text = text[:i] + text[i + r.choice([1, 1, 2, 5, 20]):]
            elif k < .8:
                j = r.randrange(len(text) + 1)
                text = text[:i] + text[min(i, j):max(i, j)][:40] + text[i:]
            elif k < .9:
                text = text[:i] + r.choice(self.TOKENS) + text[i + 1:]
            else: text = text[:i] + r.choice(self.VALUES) + text[i:]
        return text

    def inner_fuzz(self):
        """A well-formed document around a broken style sheet, style attribute or value."""
        r = self.r
        junk = lambda n: ''.join(r.choice(self.TOKENS + self.CSSV + self.CSSN + ['{', '}', ':', ';', ',', ' ', 'rect', 'g', '.c1', '#a', '>', '+']) for _ in range(r.randrange(n)))
        ok = lambda s: ''.join(c for c in s if c in '\t\n' or ord(c) >= 32)
        css = self.sheet()[0]
        css = self.fuzz(css) if r.random() < .5 else junk(12)
        nodes = [N('element', 'svg', at=[('', 'id', 'a')]), N('element', 'style', 1), N('text', par=2, tx=ok(css) or ' ')]
        for _ in range(r.randrange(1, 4)):
            at = [('', r.choice(['d', 'transform', 'points', 'fill', 'stroke', 'viewBox', 'x', 'font-size', 'preserveAspectRatio', 'stroke-dasharray', 'offset', 'filter', 'unicode', 'stdDeviation', 'orient']), ok(junk(5)))]
            nodes.append(N('element', r.choice(['rect', 'g', 'text', 'path']), r.choice([1, len(nodes)]) if nodes[-1]['k'] == 'element' else 1, at=at, style=ok(junk(6)) if r.random() < .5 else None))
        if r.random() < .5: nodes.append(N('text', par=len(nodes), tx=ok(junk(3)) or ' '))
        return render(nodes, r)

    def number(self):
        r = self.r
        return r.choice(['0', '1', '10', '-5', '0.5', '-0.25', '.75', '100', '1e3', '0.001', '-.5', '12.3456', '7', '360', '90', '-1', '0.1'])

    def path(self):
        r, n = self.r, self.number
        out = r.choice('Mm') + ' %s %s' % (n(), n())
        for _ in range(r.randrange(6) if not self.big else r.choice([0, 3, 20, 90])):
            c = r.choice('LlLlLlMmHhVvCcSsQqTtAaAaZz')
            k = {'l': 2, 'm': 2, 'h': 1, 'v': 1, 'c': 6, 's': 4, 'q': 4, 't': 2, 'z': 0}.get(c.lower())
            if k is None: out += ' %s %s %s %s %s %s %s %s' % (c, n().lstrip('-'), n().lstrip('-'), n(), r.choice('01'), r.choice('01'), n(), n())
            else: out += ' ' + c + ''.join(' ' + n() for _ in range(k))
        return out

    def transform(self, exact=False):
        r, n = self.r, self.number
        if exact:   # a transform that survives the value library's rounding
            return r.choice(['translate(%s 3)' % n(), 'scale(2,%s)' % n(), 'rotate(%s)' % r.choice(['30', '45', '60', '-30']), 'rotate(30 5 7)', 'skewX(45)', 'matrix(1 2 3 4 %s %s)' % (n(), n())])
        f = lambda: r.choice(['translate(%s)', 'translate(%s %s)', 'scale(%s)', 'scale(%s,%s)', 'rotate(%s)', 'rotate(%s 5 7)', 'skewX(%s)', 'skewY(%s)', 'matrix(%s %s %s %s %s %s)'])
        out = ''
        for _ in range(r.choice([1, 1, 1, 2])):
            s = f()
            out += s % tuple(n() for _ in range(s.count('%s'))) + ' '
        return out.strip()

    def values_document(self, exact=False):
        """Elements with values of all types (for the value write options)."""
        r, n = self.r, self.number
        nodes = [N('element', 'svg'), N('element', 'linearGradient', 1, at=[('', 'id', 'a')])]
        color = lambda: r.choice(['#ff0000', '#aabbcc', '#a1b2c3', 'white', '#00f', 'rgb(17,34,51)', 'red', '#112234'])
        many = lambda k, u='': ' '.join(n() + u for _ in range(r.randrange(1, k + 1) if not self.big else r.choice([1, k, 8 * k, 25 * k])))
        for _ in range(r.randrange(1, 6) if not self.big else 12):
            cand = [('d', self.path()), ('points', ' '.join('%s,%s' % (n(), n()) for _ in range(r.randrange(1, 4) if not self.big else r.choice([1, 4, 30, 80])))), ('transform', self.transform(exact)), ('gradientTransform', self.transform(exact)),
                    ('fill', r.choice(['url(#a) ' + color(), color(), 'none', 'url(#zz) ' + color(), 'url(#a) none'])), ('stroke', r.choice(['url(#a) ' + color(), 'url(#a)', color()])), ('stop-color', color()),
                    ('stroke-dasharray', many(4, r.choice(['', 'mm']))), ('tableValues', many(4)), ('stdDeviation', many(2)), ('width', n() + r.choice(['', 'mm', '%'])), ('opacity', n()), ('viewBox', '0 %s 0.5 %s' % (n(), r.choice(['1', '0.25', '10']))),
                    ('offset', n()), ('rotate', many(3)), ('orient', n() + r.choice(['', 'deg', 'rad'])), ('preserveAspectRatio', r.choice(['xMidYMid', 'xMinYMax slice', 'none'])), ('font-size', n()), ('x', many(3)), ('font-family', '0.5 #ff0000'),
                    ('unicode', '0.5'), ('class', 'x'), ('visibility', 'inherit'), ('color', 'currentColor'), ('values', many(5))]
            r.shuffle(cand)
            nodes.append(N('element', r.choice(['path', 'g', 'text', 'stop', 'marker', 'rect', 'glyph', 'feColorMatrix']), r.choice([1, len(nodes)]), at=[('', a, b) for a, b in cand[:r.randrange(1, 9 if not self.big else 25)]]))
        return nodes, {}

    def type_matrix(self, tags_only=None):
        """Every attribute with every value, on some element; every attribute on every element, with some value."""
        r = self.r
        pairs = [(n, v, None) for n in self.attributes if n != 'xmlns' for v in self.VALUES + self.MORE]
        pairs += [(n, r.choice(self.VALUES), t) for n in self.attributes if n != 'xmlns' for t in self.elements if t != 'style']
        pairs += [(n, v, t) for n in ('x', 'y', 'dx', 'dy', 'fill', 'stroke') for t in self.elements if t != 'style'
                  for v in ('1 2', '5mm', '', 'red', 'abc', 'url(#zz) red', 'freeze', 'inherit', '1')]
        special = ['rect', 'text', 'g', 'tspan', 'set', 'stop', 'animate', 'tref', 'altGlyph', 'use', 'marker', 'glyph', 'font-face']
        byel = {}
        r.shuffle(pairs)
        for n, v, t in pairs:
            t = t or r.choice(special)
            for e in byel.setdefault(t, [{}]):
                if n not in e and len(e) < 30: e[n] = v; break
            else: byel[t].append({n: v})
            if len(byel[t]) > 6: byel[t + ' '] = byel.get(t + ' ', []) + byel[t][:-3]; byel[t] = byel[t][-3:]
        els = [(t.strip(), e) for t, l in byel.items() for e in l]
        r.shuffle(els)
        for k in range(0, len(els), 15):
            nodes = [N('element', 'svg'), N('element', 'g', 1, at=[('', 'id', 'a')]), N('element', 'g', 1, at=[('', 'id', 'b')])]
            for t, e in els[k:k + 15]:
                at = [('xlink' if n == 'href' else 'xml' if n in ('space', 'lang', 'base') else '', n, v) for n, v in e.items()]
                nodes.append(N('element', t, 1, at=at))
            yield render(nodes)

    def packed(self, pairs):
        """Documents that hold all the pairs of an attribute name and a value."""
        r, els = self.r, [{}]
        r.shuffle(pairs)
        for n, v in pairs:
            for e in els[-8:]:
                if n not in e and len(e) < 25: e[n] = v; break
            else: els.append({n: v})
        for k in range(0, len(els), 15):
            nodes = [N('element', 'svg'), N('element', 'g', 1, at=[('', 'id', 'a')]), N('element', 'g', 1, at=[('', 'id', 'b')])]
            for e in els[k:k + 15]:
                at = [('xlink' if n == 'href' else 'xml' if n in ('space', 'lang', 'base') else '', n, v) for n, v in e.items()]
                nodes.append(N('element', self.pick('rect', 'text', 'g', 'tspan', 'set', 'stop', 'glyph', 'marker'), 1, at=at))
            yield render(nodes)

    def near(self, v):
        """One small edit away."""
        r, i = self.r, self.r.randrange(len(v) + 1)
        c = r.choice(list(' \t,.-+0195aefmxzMZ#%()urlE;:/_|&<"\'') + ['\u00e9', '\u00a0', '\U0001d11e', '\u0131'])
        k = r.random()
        if k < .4: return v[:i] + c + v[i:]
        if k < .7: return v[:i] + c + v[i + 1:]
        if k < .85: return v[:i] + v[i + 1:]
        if k < .9: return v[:i]
        if k < .95: return v[i:]
        return v[:i].upper() + v[i:]

    def near_values(self, n):
        """Every attribute with values one edit away from a fitting one."""
        names = [a for a in self.attributes if a not in ('xmlns', 'id', 'style')]
        return self.packed([(a, self.near(self.fitting(a) if self.chance(.5) else self.pick(self.VALUES + self.MORE))) for a in names for _ in range(n)])

    def long_values(self, n):
        """Every attribute with values far longer than usual."""
        r = self.r
        units = ['1 ', '0.5,', '10mm ', '1', '9', 'a', 'a ', 'L 1 2 ', 'l1-1', 'h1', 'z', '1,2 ', 'scale(2) ', 'translate(1,2)', '#', '#ff', '(', ')', ' ', ',', '-', '.', 'e', 'url(#a) ', 'inherit ', '\u00e9', '\U0001d11e', '%', 'xMidYMid ']
        heads = ['', '', 'M 0 0 ', '#', 'url(#', 'url(', 'matrix(', 'rgb(', '1', '-', 'none', '0 0 ', 'M', 'A 1 1 0 0 ']
        out = []
        for a in self.attributes:
            if a in ('xmlns', 'id', 'style'): continue
            for _ in range(n):
                u = r.choice(units)
                out.append((a, r.choice(heads) + u * (r.choice([40, 200, 1000, 5000]) // len(u) + 1) + r.choice(['', '', ')', ' 1', 'x', '#'])))
        return self.packed(out)

    def all_attributes(self):
        """Every attribute on one element and half of them on another, in any order."""
        nodes = [N('element', 'svg'), N('element', 'g', 1, at=[('', 'id', 'a')]), N('element', 'g', 1, at=[('', 'id', 'b')])]
        for k in (1, .5):
            at = [('xlink' if n == 'href' else 'xml' if n == 'space' else '', n, self.fitting(n)) for n in self.attributes if self.chance(k) and n not in ('id', 'style', 'xmlns')]
            self.r.shuffle(at)
            nodes.append(N('element', self.pick('rect', 'text', 'path'), 1, at=at))
        return render(nodes, self.r)

    def tower(self):
        """Deep nesting, with something on every level."""
        r, depth = self.r, self.pick(20, 40, 70)
        nodes, p = [N('element', 'svg', at=[('', 'id', 'a')])], 1
        txt = self.pick('text', 'g', 'tspan')
        for k in range(depth):
            for _ in range(r.randrange(3)):
                j = r.random()
                if j < .3 and nodes[-1]['k'] != 'text': nodes.append(N('text', par=p, tx=self.pick('t%d ' % k, ' x ', ' ')))
                elif j < .5: nodes.append(N('comment', par=p, tx='c%d' % k))
                else: nodes.append(N('element', self.pick('rect', 'use', 'style'), p, at=[('', 'id', 'e%d' % k)] if self.chance(.5) else [('', 'fill', 'url(#e%d)' % r.randrange(depth))]))
            at = [('xml', 'space', self.pick('preserve', 'default'))] if self.chance(.05) else []
            if self.chance(.1): at.append(('', 'filter', 'url(#%s)' % self.pick('a', 'e3')))
            nodes.append(N('element', self.pick(txt, txt, 'g', 'tspan', 'a'), p, at=at))
            p = len(nodes)
        nodes.append(N('text', par=p, tx=' end '))
        return render(nodes, r)

    def long_text(self):
        """One text element with many text nodes."""
        r = self.r
        nodes = [N('element', 'svg'), N('element', self.pick('text', 'text', 'g'), 1, at=[('xml', 'space', 'preserve')] if self.chance(.15) else [])]
        path, n = [2], self.pick(15, 30, 60)
        for k in range(n):
            if nodes[-1]['k'] != 'text' or nodes[-1]['par'] != path[-1]:
                nodes.append(N('text', par=path[-1], tx=self.pick('a', ' ', ' b', 'c ', ' d ', '  ', '\n e', 'f\t', '\u00a0')))
            j = r.random()
            if j < .45 and len(path) < 5:
                nodes.append(N('element', self.pick('tspan', 'tspan', 'a', 'tref'), path[-1], at=[('xml', 'space', self.pick('preserve', 'default'))] if self.chance(.08) else []))
                path.append(len(nodes))
            elif j < .8 and len(path) > 1: path.pop(); nodes.append(N('comment', par=path[-1], tx='c')) if self.chance(.1) else None
            else: nodes.append(N('comment', par=path[-1], tx='c'))
            if len(path) > 1 and self.chance(.3): path.pop()
        return render(nodes, r)

    def doubled(self):
        """Every attribute twice on one element, in two namespaces."""
        at = []
        skip = ('id', 'style', 'xmlns', 'class')
        for n in self.attributes:
            if n in skip: continue
            two = self.r.sample(['', 'svg', 'xlink', 'xml'], 2)
            for ns in two: at.append((ns, n, self.fitting(n) if self.chance(.7) else self.pick(self.VALUES)))
        self.r.shuffle(at)
        return render([N('element', 'svg'), N('element', 'g', 1, at=[('', 'id', 'a')]), N('element', self.pick('rect', 'text'), 1, at=at)], self.r)

    MORE = ['1,', ',1', '1 2 3 4', '0 0 0 0', '0 0 -1 1', '1px2', '1 % ', 'inheritx', 'Inherit', 'NONE', 'currentcolor', 'xMinYMax', 'xMinYMax meet', 'defer xMidYMid', 'super', '12.5deg', 'autox', '#fff', '#ffff', 'hsl(1,2,3)',
            'url(#a)red', '1.5', '-0.001', '1.001', '0.999', '100', '1e-3', 'M 1 2 3 4 z', 'L 1 2', 'M 0 0 a', '5,5', 'scale(1 1)', 'translate(1) scale(0)', 'rotate(360)', 'scale(-1)', '10pc', '10Q', 'larger', '120%', 'normalx', '\u20035\u2003', 'url(#x y)', '#x y',
            '5pt', '5cm', '5ex', '5grad', '-1pc', '  a longer string, with spaces   ', './x#a', '../a', 'INHERIT', 'None', 'Auto', 'AUTO', 'Normal', 'Baseline', 'SUB', 'CURRENTCOLOR', 'URL(#a)', 'inherit none', '1E2', '+.5', '-0', '1e400', '1e-400',
            'NaN', 'inf', '0x1', '\u0663', '1\u00a02', '1;2', '(1)', 'M 1 2 L', 'M 1 2 L 3 4 5', 'm 1 2 h 3 v 4 Z z', 'matrix(1 0 0 1)', 'matrix(1 0 0 1 0 0 0)', 'scale(1) translate(0)', 'rotate(0)', '0 0 1', '0 0 1e3 1', '99999999999', '16777217',
            '0.1 0.2', 'rgb(300,-1,0)', '#GGG', 'transparent', 'xMidYMid slicex', 'none meet', 'sub super', '0deg', '360', '1 ', 'a', 'url(#a) inherit', 'url(#a) rgb(1,2,3)', '#a ', 'data:x,#a', 'url(b.svg#a)', '1 2 3 4 5', '4.0 4.', '1,,2', '1 2,']
