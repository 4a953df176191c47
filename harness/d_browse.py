"""C26: the browsable view of generated files, judged by TLC on Browse.tla (see DESIGN.md)."""
import contextlib, io, json, os, random, re, tempfile
from html.parser import HTMLParser
import d_xreffile as X
import d_pages, d_revisions, pdfgen, pdfscan
from pdfval import St
from vlib import SEED, THOROUGH, pmap, MachineryError
from d_content import command

VOID = {'meta', 'br', 'img', 'hr', 'link', 'input'}


class View(HTMLParser):
    """Blocks, anchors, links and texts of a view."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.stack, self.tags, self.bad = [], [], []
        self.ids, self.blocks, self.navs, self.texts = [], [], [], []
        self.block, self.link, self.words, self.section = None, None, [], ''
        self.feed(text)
        self.close()
        self.bad += [t for t, _ in self.stack if t != 'html']

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.append((tag, tuple(sorted(k for k, _ in attrs))))
        if 'id' in a:
            self.ids.append(a['id'])
        if tag in VOID:
            return
        self.stack.append((tag, a))
        if tag == 'div' and a.get('class') == 'block':
            self.block = {'ids': [], 'depth': len(self.stack), 'where': '', 'head': '', 'links': [], 'body': ''}
            self.blocks.append(self.block)
        if self.block and 'id' in a:
            self.block['ids'].append(a['id'])
        if tag == 'a' and 'href' in a:
            self.link = {'href': a['href'], 'text': '', 'em': any(t == 'em' for t, _ in self.stack), 'section': self.section}
            (self.block['links'] if self.block else self.navs).append(self.link)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if not self.stack or self.stack[-1][0] != tag:
            self.bad.append('/' + tag)
            if not any(t == tag for t, _ in self.stack):
                return
            while self.stack[-1][0] != tag:
                self.stack.pop()
        self.stack.pop()
        if self.block and len(self.stack) < self.block['depth']:
            self.block = None
        if tag == 'a':
            self.link = None

    def handle_data(self, d):
        self.words.append(d)
        if any(t == 'summary' for t, _ in self.stack) and any(t == 'nav' for t, _ in self.stack):
            self.section = d.strip()
        if self.link:
            self.link['text'] += d
        if self.block and self.stack:
            t, a = self.stack[-1]
            inside = {x[1].get('class') for x in self.stack}
            if 'obj-header b0' in inside:
                self.block['head'] += d
            elif not self.block['where'] and t == 'span' and a.get('class') == 'c1':
                self.block['where'] = d.strip()
            elif any(c and c.startswith('obj-body') for c in inside):
                self.block['body'] += d

    def handle_comment(self, d):
        self.tags.append(('comment', ()))

    def handle_decl(self, d):
        self.tags.append(('decl', ()))

    def unknown_decl(self, d):
        self.tags.append(('decl', ()))

    def handle_pi(self, d):
        self.tags.append(('pi', ()))


def refs_in(v):
    if isinstance(v, complex):
        return [[int(v.imag), int(v.real)]]
    if isinstance(v, St):
        return refs_in(v.entries)
    if isinstance(v, dict):
        return [x for y in v.values() for x in refs_in(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in refs_in(y)]
    return []


def refs_of(v):
    return [list(x) for x in sorted({tuple(x) for x in refs_in(v)})]


HEAD = re.compile(r'(\d+) (\d+) obj')
REF = re.compile(r'(\d+) (\d+) R')
ENTRY = re.compile(r'#(\d+) (\d+)')


def shown(text):
    """What a view shows."""
    v = View(text)
    blocks, owner, links, pages, mini = [], {}, [], [], []
    for k, b in enumerate(v.blocks, 1):
        m = HEAD.fullmatch(b['head'].strip())
        w = b['where']
        blocks.append({'where': int(w) if w.isdigit() else -1, 'env': [int(x) for x in re.findall(r'\d+', w)] if '#' in w else [],
                       'num': int(m[1]) if m else -1, 'gen': int(m[2]) if m else -1, 'kind': 'obj' if m else b['head'].strip()})
        for i in b['ids']:
            owner.setdefault(i, k)
    for k, l in [(k, l) for k, b in enumerate(v.blocks, 1) for l in b['links']] + [(0, l) for l in v.navs]:
        h, t = l['href'], l['text'].strip()
        if not h.startswith('#'):
            continue
        x = {'kind': 'other', 'from': k, 'num': int(t) if t.isdigit() else 0, 'gen': -1, 'to': owner.get(h[1:], 0),
             'count': v.ids.count(h[1:])}
        if k == 0:
            if l['section'] == 'Pages':
                pages.append(x)
            elif l['section'] == 'Minimap':
                mini.append(x)
        elif l['em']:
            x['kind'] = 'used'
        elif REF.fullmatch(t):
            x.update(kind='ref', num=int(REF.fullmatch(t)[1]), gen=int(REF.fullmatch(t)[2]))
        elif ENTRY.fullmatch(t):
            x.update(kind='entry', num=int(ENTRY.fullmatch(t)[1]), gen=int(ENTRY.fullmatch(t)[2]))
        elif t.isdigit():
            x['kind'] = 'offset'
        links.append(x)
    return {'blocks': blocks, 'links': links, 'shownpages': pages, 'mini': mini, 'bad': sorted(set(v.bad)),
            'dup': sorted({i for i in v.ids if v.ids.count(i) > 1})}, v


def facts(d):
    """Definitions, entries in order of precedence, trailers and pages of a file (read by pdfscan)."""
    secs = list(reversed(pdfscan.chain(d)))
    ents, trs, offs, rev = [], [], [], 0
    places, envs = {}, set()
    for k, x in enumerate(secs):
        if not (k and secs[k - 1]['pos'] > x['pos']):     # the two sections of a linearized file are one revision
            rev += 1
        hid = {e[0] for e in x['stm']['entries']} if 'stm' in x else set()
        rows = [(x['pos'], e) for e in x['entries'] if e[1] == 'f' and e[0] in hid]
        if 'stm' in x:
            rows += [(x['stm']['pos'], e) for e in x['stm']['entries']]
        rows += [(x['pos'], e) for e in x['entries'] if not (e[1] == 'f' and e[0] in hid)]
        for pos, (n, t, a, b) in rows:
            ents.append({'rev': rev, 'blk': pos, 'num': n, 't': t, 'a': a, 'b': b})
            if t == 'n':
                places[a] = None
            elif t == 'e':
                envs.add(a)
        if x['kind'] == 'T':
            trs.append({'rev': rev, 'pos': x['pos'], 'refs': refs_of(x['trailer'])})
        else:
            places[x['pos']] = None
        if '/Prev' in x['trailer']:
            offs.append([x['pos'], x['trailer']['/Prev']])
        t = pdfscan.token(d, x['end'])
        if t[:2] == ('kw', 'startxref'):
            p = pdfscan.token(d, t[3])[1]
            if p:
                offs.append([0, p])
    known = pdfscan.read_pdf(d)[1]

    def length_of(r):
        v = known.get(int(r.imag))
        return v[1] if v else None
    defs = []
    for a in sorted(places):
        o = pdfscan.indirect(d, a, length_of)
        v = o['value']
        typ = v.entries.get('/Type') if isinstance(v, St) else None
        defs.append({'num': o['num'], 'gen': o['gen'], 'pos': a, 'env': 0, 'idx': -1, 'refs': refs_of(v), 'xs': typ == '/XRef'})
        if typ == '/ObjStm':
            for i, (n, _, w, _) in enumerate(pdfscan.objstm(v)):
                defs.append({'num': n, 'gen': 0, 'pos': a, 'env': o['num'], 'idx': i, 'refs': refs_of(w), 'xs': False})
    trailer, objs = pdfscan.read_pdf(d)

    def get(v):
        while isinstance(v, complex):
            v = objs[int(v.imag)][1]
        return v

    def walk(r):
        p = get(r)
        if p.get('/Type') == '/Pages':
            return [x for k in get(p['/Kids']) for x in walk(k)]
        return [int(r.imag)]
    pages = walk(get(trailer['/Root'])['/Pages'])
    return {'defs': defs, 'ents': ents, 'trs': trs, 'offs': offs, 'pages': pages, 'nrev': rev}


def view_of(data):
    r, _ = shown(command('browse', data))
    return {**r, **facts(data)}


def run_plan(case):
    rec, seed = case
    return view_of(X.build(rec, seed).data)


def run_tree(case):
    i, x = case
    r = view_of(d_pages.tree_bytes(x, i))
    r['pages'] = [p['id'] for p in x['pl']]
    return r


def run_fault(case):
    """Links of the view of a file with a wrong entry, if it can be read at all."""
    try:
        r, _ = shown(command('browse', X.build(*case).data))
    except Exception:
        return {'bad': None}
    return {'bad': [x for x in r['links'] + r['mini'] + r['shownpages'] if x['count'] != 1] + r['bad'] + r['dup']}


def run_history(case):
    trace, tid = case
    with contextlib.redirect_stdout(io.StringIO()):
        r = d_revisions.Replay(trace, 'C26', True, tid)
        r.run()
    out = []
    for h in r.hs[-1:] + r.hs[:-1][::3]:
        data = d_revisions.write(h.doc)[1]
        if data not in out:
            out.append(data)
    return {'views': [view_of(x) for x in out]}


PLACES = ['key', 'name', 'type', 'subtype', 'string', 'nested', 'array', 'cut', 'stream', 'head', 'tail', 'trailer', 'embedded',
          'version', 'js', 'typestring', 'long', 'metadata']


def nm(t):
    """A name holding any character."""
    return '/' + ''.join(x if x.isalnum() else f'#{ord(x):02X}' for x in t)


def raw(t):
    return '/' + ''.join(x if x.isalnum() or x in '&"\';=' else f'#{ord(x):02X}' for x in t)


def loaded(t, places, shift):
    """A file with a text in some places; the text is written after a mark that tells the place."""
    m = lambda k: (f'Q{k}Q' + t) if PLACES[k] in places else f'Q{k}Q'
    b = lambda k: b'(' + m(k).encode() + b')'
    s = 'x' * shift
    objs = {1: {'/Type': '/Catalog', '/Pages': 2j, '/Version': '/1.7' + (nm(t)[1:] if 'version' in places else '')},
            2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
            3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]},
            5: {nm(m(0)): 1, raw('A' + m(0)): 2, '/V': raw(m(1)), '/W': nm(m(1)), '/S': b(4), '/N': {'/S': b(5), '/T': [b(5)]}},
            6: {'/Type': raw(m(2)), '/Subtype': nm(m(3)), '/JS': b(14), '/S': '/JavaScript'},
            7: [1, b(6), raw(m(6))], 8: {'/Type': b(15)},
            9: [(s + m(7)).encode().join([b'(', b')']), 1234567890, 1234567890],
            10: [raw(s + m(7)), 1234567890, [raw(m(7)), 1234567890], 1234567890],
            11: St({'/Filter': '/ASCIIHexDecode', '/X': b(4)}, m(8).encode()),
            12: b'(' + ((s + m(16)) * 2).encode() + b')', 13: b(4), 14: raw(m(1)),
            18: {'/A': [{'/Type': raw(m(2)), '/B': [b(6)]}, 1234567890, 123456789], '/R': [5j, 6j, b(6)]}}
    objs = {n: (0, v) for n, v in objs.items()}
    sec = {'kind': 'S', 'objs': objs, 'emb': {15: [(16, {nm(m(12)): b(12), '/T': [raw(m(12))]})]}, 'xs': 17,
           'trailer': {'/Root': 1j, nm(m(11)): b(11), '/Info': 5j}}
    return pdfgen.build([sec], seed=shift, plain=True, head=b'%Q' + (t.encode() if 'head' in places else b''),
                        tail=b'%Z' + (t.encode() if 'tail' in places else b'') + b'\n').data


def tags_of(text):
    v = View(text)
    return [x for x in v.tags if x[0] != 'em'], v


def run_markup(case):
    t, shift = case
    out = []

    def look(places):
        a, v = tags_of(command('browse', loaded(t, places, shift), name='Q' + (t.replace('/', '') if 'file' in places else '') + '.pdf'))
        z, w = tags_of(command('browse', loaded('x' * len(t), places, shift), name='Q.pdf'))
        return a, z, v
    a, z, v = look(PLACES + ['file'])
    if a != z or v.bad:
        return {'bad': [('markup', [p for p in PLACES + ['file'] if (lambda r: r[0] != r[1] or r[2].bad)(look([p]))])]}
    seen = ''.join(v.words).replace('\\', '')
    for k, p in enumerate(PLACES):
        if p in ('head', 'tail'):
            want = [('%Q' if p == 'head' else '%Z') + t[:8]]
        elif p == 'version':
            want = ['1.7' + t, '1.7' + nm(t)[1:]]
        elif p in ('cut', 'long', 'metadata'):
            continue
        else:
            x = f'Q{k}Q' + t
            want = [x, nm(x)[1:], raw(x)[1:]]
        if not any(x in seen for x in want):
            out.append(('text', p))
    if 'Q' + t.replace('/', '') + '.pdf' not in seen:
        out.append(('text', 'file'))
    return {'bad': out}


CURATED = ['</pre>', '<b>', '<script>', '&lt;', '&amp;', '&amp;lt;', '<!--', '-->', '</a>', '&gt', '"x"', "'x'", '<a b="', '<?x', '<!b', '&l', 't;',
           '&quot;', '<b/>', '&#60;', '&#x3c;b', 'b>', '<br>', '</div>']


def markup(c):
    r = c.tlc('Markup', {'Chars': set('<>&;/b"'), 'Len0': 4 if THOROUGH else 3, 'Words': {tuple(t) for t in CURATED}},
              invariants=['Inverse', 'Around', 'Needed', 'CutWhole', 'Emit'])
    ps = sorted({''.join(v['p']) for v in r.values})
    cases = [(t, (i * 7 + k) % 34) for i, t in enumerate(ps) for k in ((0, 11) if len(t) > 2 else (0, 5, 16, 27))]
    n = 0
    for case, r in zip(cases, pmap(run_markup, cases)):
        n += 1
        if 'crash' in r:
            c.violation('C26:' + r['kind'], {'text': case[0], 'shift': case[1], 'crash': r['crash']})
        elif r['bad']:
            c.violation(f'C26:{r["bad"][0][0]}', {'text': case[0], 'shift': case[1], 'mismatch': r['bad']})
    c.add(traces_validated_against_impl=n, texts_in_places=n * len(PLACES))


def judge(c, recs, names):
    bad = {}
    step = 400
    parts = [recs[i:i + step] for i in range(0, len(recs), step)]

    def one(p):
        t = '\n'.join(json.dumps(r) for r in p) + '\n'
        return c.tlc('Browse', {'File': 'views.ndjson'}, files={'views.ndjson': t}, workers=1)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for p, r in zip(parts, ex.map(one, parts)):
            if sum(v.get('checked', 0) for v in r.values) != len(p):
                raise MachineryError('Browse did not read every record')
            for v in r.values:
                if 'id' in v:
                    bad[v['id']] = v['failed']
    for i, f in sorted(bad.items()):
        r = recs[i]
        c.violation(f'C26:{sorted(f)[0]}', {'file': names[i], 'clauses': f, 'record': {k: r[k] for k in ('defs', 'ents', 'links', 'blocks', 'dup')}})
    c.add(traces_validated_against_impl=len(recs))


def c26(c):
    a = X.plans(c, N=2, MinSecs=1, MaxSecs=2)
    random.Random(SEED).shuffle(a)
    a = a[:6000 if THOROUGH else 1200]
    a += X.plans(c, N=3, MinSecs=3, MaxSecs=4, simulate=(1500 if THOROUGH else 300, 7), Picky=False)
    recs, names = [], []
    cases = [(v, SEED * 7919 + i) for i, v in enumerate(a)]
    for case, r in zip(cases, pmap(run_plan, cases)):
        if 'crash' in r:
            c.violation('C26:' + r['kind'], {'file': X.short(case[0]), 'seed': case[1], 'crash': r['crash']})
            continue
        recs.append({'id': len(recs), **r})
        names.append({'file': X.short(case[0]), 'seed': case[1]})
    trees = [x for x in d_pages.shapes(c, 'Random', 1500 if THOROUGH else 300, MinNodes=3, MaxNodes=12)
             if x['pl'] and all(p['at'][1][0] in ('d', 'i') for p in x['pl'])]      # MediaBox is required
    cases = list(enumerate(trees))
    for case, r in zip(cases, pmap(run_tree, cases)):
        if 'crash' in r:
            c.violation('C26:' + r['kind'], {'tree': case[1], 'crash': r['crash']})
            continue
        recs.append({'id': len(recs), **r})
        names.append({'tree': case})
    w = d_revisions.weights()
    r = c.tlc('Revisions', d_revisions.consts(w, 8, True, 'all'), invariants=['Emit'], simulate=(1200 if THOROUGH else 240, 10), workers=8)
    cases = [(t, i) for i, t in enumerate(r.values)]
    for case, r in zip(cases, pmap(run_history, cases)):
        if 'crash' in r:
            c.violation('C26:' + r['kind'], {'history': d_revisions.short(case[0]), 'crash': r['crash']})
            continue
        for v in r['views']:
            recs.append({'id': len(recs), **v})
            names.append({'history': d_revisions.short(case[0])})
    judge(c, recs, names)
    markup(c)
    a = X.plans(c, faults=1, N=2, MinSecs=1, MaxSecs=2, simulate=(3000 if THOROUGH else 400, 7), Picky=False)
    n = 0
    for v, i, r in zip(a, range(len(a)), pmap(run_fault, [(v, i) for i, v in enumerate(a)])):
        n += r.get('bad') is not None
        if r.get('bad'):
            c.violation('C26:links', {'file': X.short(v), 'seed': i, 'links': r['bad'][:5]})
    if not n:
        raise MachineryError('no file with a wrong entry could be viewed')
    c.add(traces_validated_against_impl=n)
    c.sample(recs[0])
