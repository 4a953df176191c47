"""C30: documents generated by Markdown.tla, rendered and compared block by block (see DESIGN.md)."""
import json, random, re
from html import escape
from html.parser import HTMLParser
from vlib import SEED, THOROUGH, pmap, MachineryError
from pdfsyntax import markdown

WORDS = ['alpha', 'x-y', '3.5', 'snake_case', 'R&D', "it's", '"q"', '(paren)', 'end.', 'semi;', '50%', 'a.b', 'c:', 'UPPER', 'émile', 'one']
FIRST = ['alpha', '3.5', '-dash', '+plus', '#tag', 'x*', 'Zed:', "it's", 'a.', '(1)', '2nd', '"q"', 'R&D', '.dot', '~', '==x']
CODEIN = ['x<y', 'a&b', '*p*', '_q_', '&lt;', 'f(x)', '</code>', 'a > b', '**s**', '&amp;', "'", 'x']
CODE = ['x = 1', '# no title', '- no item', '1. no item', '    deep', '', '| no | row |', '=====',
        '<b>&amp;</b>', '### no', '* a * b', '2. b', '      deeper', ' ', '|--|--|', '---',
        '>>> f(a & b)', '#!x', '+ c', '10. <i>', '    - x', '', '| `a` |', '--',
        '`tick` _x_ **y**', '# [a](b.md)', '-', '3.', '     <pre>', '  ', '|', '=']


def inline(r, i, first=True, cell=False, edge=False):
    """(Markdown, canonical HTML) of text number i."""
    r = random.Random(i * 1009 + r)
    n = r.choice([1, 1, 2, 3, 4])
    md, out = [], []
    for k in range(n):
        t = r.random()
        plain = [w for w in WORDS if '_' not in w]
        if k == 0 and first and t < .5:
            w = r.choice([x for x in FIRST if not (cell and x == '.dot')])
            if w == 'x*':
                w = 'x'
            md.append(w), out.append(escape(w, False))
        elif cell and t < .2:
            w = r.choice(['--force', '-', '--', '-x', ':--', '---'] if k == 0 else ['--', '-f'])
            md.append(w), out.append(w)
        elif t < .5:
            w = r.choice(WORDS)
            md.append(w), out.append(escape(w, False))
        elif t < .75:
            w = ' '.join(r.choice(plain) for _ in range(r.choice([1, 1, 2])))
            m, e = r.choice([('*', 'em'), ('_', 'em'), ('**', 'strong'), ('__', 'strong'), ('***', 'both'), ('___', 'both')])
            md.append(m + w + m)
            w = escape(w, False)
            out.append(f'<em><strong>{w}</strong></em>' if e == 'both' else f'<{e}>{w}</{e}>')
        elif t < .9:
            w = r.choice(CODEIN)
            md.append(f'`{w}`'), out.append(f'<code>{escape(w, False)}</code>')
        else:
            w = ' '.join(r.choice(plain) for _ in range(r.choice([1, 2])))
            u = r.choice(['http://x.org/a', 'b.md', 'c/d.png', '#frag'])
            if r.random() < .3:
                md.append(f'![{w}]({u})'), out.append(f'<img {u} {w}>')
            else:
                h = u[:-3] + '.html' if u.endswith('.md') else u
                md.append(f'[{w}]({u})'), out.append(f'<a {h}>{escape(w, False)}</a>')
    return ' '.join(md), ' '.join(out)


def realize(doc, seed):
    """(Markdown text, expected blocks)."""
    r = random.Random(seed)
    s = seed % 97
    lines, want = [], []
    t = lambda i, **kw: inline(s, i, **kw)
    for x, b in enumerate(doc):
        lines += [r.choice(['', '', '', ' ', '   ']) if x else '' for _ in range(b['gap'])]
        k, parts = b['k'], b['parts']
        if k == 'h':
            m, h = t(parts[0], first=False)
            lines.append('#' * b['n'] + ' ' + m)
            want.append((f'h{b["n"]}', h))
        elif k in ('u', 'p'):
            ps = [t(i) for i in parts]
            brk = [k == 'p' and r.random() < .15 and j < len(ps) - 1 for j in range(len(ps))]
            lines += [m + ('  ' if y else '') for (m, _), y in zip(ps, brk)]
            if k == 'u':
                lines.append('=-'[b['n'] - 1] * r.choice([2, 3, 9]))
            want.append((f'h{b["n"]}' if k == 'u' else 'p', ' '.join(h + (' <br>' if y else '') for (_, h), y in zip(ps, brk))))
        elif k in ('ul', 'ol'):
            ps = [t(i, first=False) for i in parts]
            m = r.choice('-*+')
            start = r.choice([1, 1, 9]) if k == 'ol' and b['gap'] else 1
            lines += [(m if k == 'ul' else f'{start + j}.') + ' ' + p[0] for j, p in enumerate(ps)]
            want.append((k, [p[1] for p in ps]))
        elif k == 'f':
            code = [CODE[c] for c in parts]
            lines += ['```' + r.choice(['', '', 'Python', 'sh'])] + code + ['```']
            want.append(('pre', code))
        elif k == 'i':
            code = [CODE[c] if CODE[c].strip() else 'y' for c in parts]
            lines += ['    ' + c for c in code]
            want.append(('pre4', code))
        else:
            ps = [[t(i, first=False, cell=j > 0) for i in p] for j, p in enumerate(parts)]
            for j, p in enumerate(ps):
                wide = j == 0 or r.random() < .6
                lines.append('|' + '|'.join(f' {m} ' if wide else m for m, _ in p) + '|')
                if j == 0:
                    lines.append('|' + '|'.join(r.choice(['---', ' --- ', '------', ':--', ' :-: ']) for _ in p) + '|')
            want.append(('table', [[h for _, h in p] for p in ps]))
    eol = r.choice(['\n', '\n', '\r\n'])
    return eol.join(lines) + r.choice([eol, eol, '', eol + eol]), want


class Page(HTMLParser):
    TOP = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'pre', 'table', 'blockquote'}

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.out, self.stack, self.bad = [], [], []
        self.feed(text)
        self.close()
        self.bad += self.stack

    def put(self, s):
        if not self.out or not self.stack:
            if s.strip():
                self.bad.append('text out of blocks: ' + s)
            return
        b = self.out[-1]
        if b[0] in ('ul', 'ol', 'table'):
            if not b[1] or (b[0] == 'table' and not b[1][-1]):
                if s.strip():
                    self.bad.append('text out of items: ' + s)
                return
            if b[0] == 'table':
                b[1][-1][-1] += s
            else:
                b[1][-1] += s
        else:
            b[1] += s

    def handle_starttag(self, t, attrs):
        a = dict(attrs)
        if not self.stack:
            if t not in self.TOP:
                self.bad.append('top ' + t)
            self.out.append([t, [] if t in ('ul', 'ol', 'table') else ''])
        elif t in ('li', 'tr'):
            if self.stack[-1] not in ('ul', 'ol', 'thead', 'tbody'):
                self.bad.append(t)
            self.out[-1][1].append('' if t == 'li' else [])
        elif t in ('th', 'td'):
            if self.stack[-1] != 'tr' or (t == 'th') != ('thead' in self.stack):
                self.bad.append(t)
            self.out[-1][1][-1].append('')
        elif t in ('thead', 'tbody'):
            if self.stack[-1] != 'table':
                self.bad.append(t)
        elif t == 'code' and self.stack[-1] == 'pre':
            pass
        elif t == 'img':
            self.put(f'<img {a.get("src")} {a.get("alt")}>')
        elif t == 'a':
            self.put(f'<a {a.get("href")}>')
        else:
            self.put(f'<{t}>')
        if t not in ('img', 'br'):
            self.stack.append(t)

    def handle_endtag(self, t):
        if not self.stack or self.stack[-1] != t:
            self.bad.append('/' + t)
            return
        self.stack.pop()
        if self.stack and t not in ('li', 'tr', 'th', 'td', 'thead', 'tbody') and not (t == 'code' and self.stack[-1] == 'pre'):
            self.put(f'</{t}>')

    def handle_data(self, d):
        self.put(d if self.stack and self.out[-1][0] == 'pre' else escape(d, False))


def squeeze(s):
    s = re.sub(r'\s+', ' ', s).strip()
    return s


def shown(html):
    p = Page(html)
    out = []
    for t, c in p.out:
        if t == 'pre':
            out.append((t, c))
        elif t == 'table':
            out.append((t, [[squeeze(x) for x in r] for r in c]))
        elif t in ('ul', 'ol'):
            out.append((t, [squeeze(x) for x in c]))
        else:
            out.append((t, squeeze(c)))
    return out, p.bad


def same(got, want):
    if want[0] == 'pre':
        return got[0] == 'pre' and lines_of(got[1]) == want[1]
    if want[0] == 'pre4':
        return got[0] == 'pre' and lines_of(got[1]) in (want[1], ['    ' + x for x in want[1]])
    return got == want


def lines_of(text):
    l = text.split('\n')
    return l[:-1] if l and l[-1] == '' else l


def run30(case):
    doc, seed = case
    md, want = realize(doc, seed)
    html = markdown.render_html(md)
    got, bad = shown(html)
    if bad:
        return {'bad': ('structure', bad[:3], md, html)}
    if len(got) != len(want):
        return {'bad': ('blocks', [len(got), len(want)], md, html)}
    for g, w in zip(got, want):
        if not same(g, w):
            return {'bad': ('block ' + w[0], [g, w], md, html)}
    return {'bad': None}


def c30(c):
    inv = ['Unambiguous', 'Stable', 'Emit']
    a = c.tlc('Markdown', {'MaxBlocks': 2, 'MaxPart': 2, 'Texts': {1}, 'Codes': {0, 5}, 'Sim': False}, invariants=inv).values
    b = c.tlc('Markdown', {'MaxBlocks': 3 if THOROUGH else 2, 'MaxPart': 1, 'Texts': {2}, 'Codes': set(range(1, 8)) if THOROUGH else {1, 4, 7}, 'Sim': False}, invariants=inv).values
    d = c.tlc('Markdown', {'MaxBlocks': 9, 'MaxPart': 4, 'Texts': set(range(1, 60)), 'Codes': set(range(len(CODE))), 'Sim': True}, invariants=inv,
              simulate=(12000 if THOROUGH else 2500, 12)).values
    seen, docs = set(), []
    for v in a + b + d:
        s = json.dumps(v, sort_keys=True)
        if s not in seen:
            seen.add(s)
            docs.append(v)
    if len(docs) < 1000:
        raise MachineryError('too few documents')
    docs.sort(key=lambda v: json.dumps(v, sort_keys=True))
    cases = [(v, SEED * 7919 + i) for i, v in enumerate(docs)]
    for case, r in zip(cases, pmap(run30, cases)):
        if 'crash' in r:
            c.violation('C30:' + r['kind'], {'text': realize(*case)[0], 'crash': r['crash']})
        elif r['bad']:
            k, m, md, html = r['bad']
            c.violation('C30:' + k, {'text': md, 'mismatch': m, 'html': html})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(realize(*cases[-1])[0])
