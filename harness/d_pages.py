"""C16-C20: behaviours of Pages.tla and trees of PageShapes.tla replayed into the library (see DESIGN.md)."""
import os, random, re, tempfile
import pdfgen
from pdfval import St, canon, string_content
from vlib import SEED, THOROUGH, pmap, MachineryError
import pdfsyntax as P
from pdfsyntax import docstruct

ATTRS = ['/Resources', '/MediaBox', '/CropBox', '/Rotate']
BOXES = [[0, 0, 595, 842], [0, 0, 612, 792], [10, 20, 605, 862], [0, 0, 300.5, 200], [0, 0, 842, 595], [-100, -50, 320, 545], [1, 1, 2, 2]]
RECTS = [[0, 0, 10, 10], [100, 200, 150, 250], [1.5, -2, 3.25, 4]]
CHARS = ['a', '(', ')', '\\', '\r', '\n', '\xe9', '\u20ac', '\u4e2d', '\U0001f600', '\ufeff', '\0', '~', '\xfe', '\xff', '\t', ' ', '\x7f',
         '\u0a0d', '\u5c28', '\u0d0a', '1', 'n', '\u295c', '\xad']
PDFDOC = {24 + i: x for i, x in enumerate([728, 711, 710, 729, 733, 731, 730, 732])}
PDFDOC.update({128 + i: x for i, x in enumerate(
    [8226, 8224, 8225, 8230, 8212, 8211, 402, 8260, 8249, 8250, 8722, 8240, 8222, 8220, 8221, 8216, 8217, 8218, 8482, 64257, 64258,
     321, 338, 352, 376, 381, 305, 322, 339, 353, 382, 0, 8364])})
NOVAL = 99


def text_of(raw):
    b = string_content(raw)
    if b[:2] == b'\xfe\xff':
        return b[2:].decode('utf-16-be', 'replace')
    if b[:3] == b'\xef\xbb\xbf':
        return b[3:].decode('utf-8', 'replace')
    return ''.join(chr(PDFDOC.get(x, x)) for x in b)


# ------------------------------------------------------------------ base documents
def O(t, up=0, kids=(), at=None, ak='-', al=(), ai=0, refs=(), back=(), x=0):
    a = at or {}
    return {'t': t, 'up': up, 'kids': list(kids), 'at': [list(a.get(k, ('-', 0))) for k in 'rmco'], 'ak': ak, 'al': list(al), 'ai': ai,
            'refs': list(refs), 'back': list(back), 'x': x, 'cnt': 0}


def random_base(seed, npages, nested, style, dead=False):
    """A document with npages pages in a random tree, shared and private objects, cycles, annotations."""
    r = random.Random(seed)
    objs = {}
    meta = {}

    def new(*a, **k):
        n = len(objs) + 1
        objs[n] = O(*a, **k)
        return n
    cat = new('C')
    root = new('P')
    objs[cat]['kids'] = [root]
    info = new('O') if r.random() < .7 else 0
    nodes, pages = [root], []
    for i in range(npages):
        while nested and r.random() < .4:
            up = r.choice(nodes)
            n = new('P', up)
            objs[up]['kids'].append(n)
            nodes.append(n)
        up = r.choice(nodes) if nested else root
        n = new('L', up)
        objs[up]['kids'].insert(r.randint(0, len(objs[up]['kids'])), n)
        pages.append(n)
    others = [new('O') for _ in range(npages + 3)]
    shared = new('V')
    objs[shared]['refs'] = [r.choice(others)]
    meta[shared] = 'r'
    nums = {}
    for a in 'mco':
        nums[a] = new('V', x=r.randrange(len(BOXES)) if a != 'o' else r.choice([90, 180, 270, 0]))
        meta[nums[a]] = a
    for n in nodes + pages:
        for j, a in enumerate('rmco'):
            q = r.random()
            p = .75 if n in pages and a in 'rm' and not nested else .35
            if a == 'm' and n == root:
                p = 1
            if q > p:
                continue
            if q < .06:
                v = ('n', 0) if n != root else ('i', nums.get(a, shared))
            elif q < .18:
                v = ('i', shared if a == 'r' else nums[a])
            elif a == 'r':
                v = ('d', r.choice(others + [0]))
            else:
                v = ('d', r.randrange(len(BOXES)) if a in 'mc' else r.choice([0, 90, 180, 270, 45]))
            objs[n]['at'][j] = list(v)
    pool = others + pages
    for n in others + pages:
        for _ in range(r.choice([0, 1, 1, 2])):
            objs[n]['refs'].append(r.choice(others if n in pages and r.random() < .8 else pool))
    for n in others:
        if r.random() < .3:
            objs[n]['back'].append(r.choice(pool))
    if info:
        objs[info]['refs'] = [r.choice(others)] if r.random() < .5 else []
    if r.random() < .6:
        objs[cat]['refs'] = [r.choice(pool)]
    for n in pages:
        q = r.random()
        k = r.choice([0, 1, 2])
        notes = []
        for _ in range(k if q > .3 else 0):
            z = new('N', back=[n] if r.random() < .6 else [], refs=[r.choice(others)] if r.random() < .5 else [])
            notes.append(z)
        if q < .2:
            continue
        if q < .3:
            objs[n]['ak'] = 'n'
        elif q < .6:
            objs[n]['ak'], objs[n]['al'] = 'd', notes
        else:
            objs[n]['ak'], objs[n]['ai'] = 'i', new('A', kids=notes)
    # objects nothing refers to, or that only a private chain refers to
    g = new('O')
    if pages and r.random() < .5:
        h = new('O', refs=[g])
        objs[r.choice(pages)]['refs'].append(h)
    assert len(objs) < 100
    return {'objs': [objs[i] for i in range(1, len(objs) + 1)], 'root': root, 'cat': cat, 'info': info, 'gone': set(), 'meta': meta,
            'style': style, 'seed': seed}


def small_base(kind):
    """Hand-made small documents for exhaustive exploration."""
    if kind == 'flat':      # 1 catalog 2 root 3 4 5 pages 6 shared resources 7 private of 4 (through 6?) 8..
        objs = [O('C', kids=[2]), O('P', kids=[3, 4, 5], at={'r': ('i', 6), 'm': ('d', 0), 'o': ('d', 90)}),
                O('L', 2, at={'o': ('n', 0)}, ak='d', al=[9], refs=[7, 8]), O('L', 2, at={'r': ('d', 10), 'o': ('d', 270)}, ak='i', ai=11, refs=[7]),
                O('L', 2, at={'m': ('d', 3)}, refs=[13]), O('V', refs=[10]), O('O', refs=[12]), O('O', refs=[8, 4]), O('N', back=[3], refs=[7]),
                O('O'), O('A', kids=[14]), O('O'), O('O', refs=[3, 15]), O('N', back=[4]), O('O', back=[16]), O('O')]
        return {'objs': objs, 'root': 2, 'cat': 1, 'info': 0, 'gone': set(), 'meta': {6: 'r'}, 'style': 'T', 'seed': 3}
    if kind == 'deep':      # root 2 -> [3 -> [4 5], 6 -> [7 -> [8], 9]]
        objs = [O('C', kids=[2]), O('P', kids=[3, 6], at={'m': ('i', 10), 'c': ('d', 1)}), O('P', 2, kids=[4, 5], at={'o': ('d', 180), 'r': ('d', 11)}),
                O('L', 3, ak='i', ai=12), O('L', 3, at={'c': ('d', 2)}, refs=[11, 13]), O('P', 2, kids=[7, 9], at={'o': ('i', 14)}),
                O('P', 6, kids=[8], at={'m': ('d', 5)}), O('L', 7, at={'r': ('d', 0)}, ak='n', refs=[13]), O('P', 6), O('V', x=2), O('O'),
                O('A'), O('O', refs=[13, 5]), O('V', x=270), O('O', refs=[11])]
        return {'objs': objs, 'root': 2, 'cat': 1, 'info': 15, 'gone': set(), 'meta': {10: 'm', 14: 'o'}, 'style': 'SO', 'seed': 5}
    objs = [O('C', kids=[2]), O('P', kids=[3]), O('L', 2, at={'r': ('d', 4), 'm': ('d', 1)}, ak='d', al=[5]), O('O'), O('N', back=[3])]
    return {'objs': objs, 'root': 2, 'cat': 1, 'info': 0, 'gone': set(), 'meta': {}, 'style': 'S', 'seed': 7}


BASES, DATA = [], []


def setup(sim):
    BASES.clear()
    DATA.clear()
    if sim:
        st = ['T', 'SO', 'H', 'TS', 'S', 'TT', 'OO'] if sim % 2 else ['S', 'T', 'OT', 'HH', 'T', 'SO', 'TH']
        n = [3, 4, 2, 5, 1, 3, 0] if sim % 2 else [4, 3, 3, 1, 2, 6, 2]
        BASES.extend(random_base(SEED * 50 + 7 * sim + i, n[i], i not in (0, 4), st[i]) for i in range(7))
    else:
        BASES.extend(small_base(k) for k in ('flat', 'deep', 'one'))
    DATA.extend(realize(b, k + 1) for k, b in enumerate(BASES))


def tagstr(b, i):
    return b'(o%d.%d \\) >> ] %% endobj \\\\)' % (b, i) if i % 2 else b'<' + (b'o%d.%d x' % (b, i)).hex().encode() + b'>'


# Keys of references: those that PDF uses, among others (no back pointer, none the library interprets).
REFKEYS = ['/Dest', '/A', '/AP', '/K1', '/Popup', '/IRT', '/Metadata', '/D', '/Names', '/Outlines', '/OpenAction', '/Dests', '/Pg', '/Obj',
        '/PieceInfo', '/XObject', '/Thumb', '/StructTreeRoot', '/AA', '/B', '/Next', '/Contents', '/SMask', '/Group', '/Font', '/K2', '/OC']
TAG = re.compile(rb'o(\d+)\.(\d+) ')


def plain(b, i, R):
    """What the file says about object i of base b, except Annots and inheritable attributes of pages; R gives references."""
    B = BASES[b - 1]
    r = B['objs'][i - 1]
    t = tagstr(b, i)
    if r['t'] == 'A':
        return [R(x) for x in r['kids']]
    if r['t'] == 'V':
        k = B['meta'][i]
        if k == 'r':
            return {'/XObject': {'/X%d' % j: R(x) for j, x in enumerate(r['refs'])}, '/Tag': t}
        return r['x'] if k == 'o' else BOXES[r['x']]
    d = {'/Tag': t}
    if r['t'] == 'C':
        d['/Type'] = '/Catalog'
    elif r['t'] == 'P':
        d['/Type'] = '/Pages'
    elif r['t'] == 'L':
        d['/Type'] = '/Page'
    elif r['t'] == 'N':
        d.update({'/Type': '/Annot', '/Subtype': '/Text', '/Rect': RECTS[i % 3], '/Contents': b'(note %d)' % i})
    for j, x in enumerate(r['refs']):
        k = (i + j) % 4
        key, sub = REFKEYS[(7 * i + 5 * j + b) % len(REFKEYS)], REFKEYS[(3 * i + j + 2 * b) % len(REFKEYS)]
        if key in d:
            key = '/K%d' % j
        if k == 0:
            d[key] = R(x)
        elif k == 1:
            d[key] = [1, R(x), b'(s)']
        elif k == 2:
            d[key] = {'/E': {sub: [[R(x)]]}}
        else:
            d[key] = {sub: R(x), '/B1': None}
    for j, x in enumerate(r['back']):
        d['/P' if j == 0 else '/Parent'] = R(x)
    if r['t'] == 'O' and i % 3 == 0:
        d.pop('/Type', None)
        e = dict(d)
        if i % 2:
            e['/Filter'] = '/FlateDecode'
        return St(e, b'data %d\r\n' % i * (i % 4))
    return d


def attr(k, v, R):
    """The value of attribute k given as <<kind, x>>."""
    if v[0] == '-':
        return None
    if v[0] == 'n':
        return 'null'
    if v[0] == 'i':
        return R(v[1])
    if k == 0:
        return {'/XObject': {'/X': R(v[1])}} if v[1] else {}
    return BOXES[v[1]] if k in (1, 2) else v[1]


def full(b, i, R, helper):
    B = BASES[b - 1]
    r = B['objs'][i - 1]
    d = plain(b, i, R)
    if r['t'] in 'PL':
        if r['up']:
            d['/Parent'] = R(r['up'])
        for k, v in enumerate(r['at']):
            x = attr(k, v, R)
            if x is not None:
                d[ATTRS[k]] = x
        if r['ak'] == 'n':
            d['/Annots'] = 'null'
        elif r['ak'] == 'd':
            d['/Annots'] = [R(x) for x in r['al']]
        elif r['ak'] == 'i':
            d['/Annots'] = R(r['ai'])
    if r['t'] == 'P':
        d['/Kids'] = helper(i, [R(x) for x in r['kids']], 'k')
        d['/Count'] = helper(i, leaves(B, i), 'c')
    if r['t'] == 'C':
        d['/Pages'] = R(r['kids'][0])
    return d


def leaves(B, i):
    r = B['objs'][i - 1]
    return 1 if r['t'] == 'L' else sum(leaves(B, k) for k in r['kids'])


def realize(B, b):
    """Bytes of a base document: objects spread over the sections of its style, numbers permuted."""
    rnd = random.Random(B['seed'] * 7 + 1)
    n = len(B['objs'])
    perm = list(range(1, n + 1))
    rnd.shuffle(perm)
    gens = {i: (rnd.choice([0, 0, 0, 2]) if B['style'][0] == 'T' else 0) for i in range(1, n + 1)}
    R = lambda i: complex(gens[i], perm[i - 1])
    nxt = [n + 1]
    extra = {}

    def helper(i, v, kind):
        if (i * 3 + (kind == 'k') + B['seed']) % 3 == 0:
            z = nxt[0]
            nxt[0] += 1
            extra[z] = (0, v)
            return complex(0, z)
        return v
    vals = {i: full(b, i, R, helper) for i in range(1, n + 1)}
    objs = {perm[i - 1]: (gens[i], v) for i, v in vals.items()}
    objs.update(extra)
    secs = []
    st = B['style']
    S = 'S' if st == 'SO' else st
    nums = list(objs)
    for j, k in enumerate(S):
        # later sections say again some objects
        part = nums if j == 0 else rnd.sample(nums, len(nums) // 3)
        cur = {z: objs[z] for z in part}
        if j < len(S) - 1:      # earlier content of objects said again later is different: decided below
            pass
        s = {'kind': 'S' if k == 'O' else k, 'objs': cur, 'free': {}, 'emb': {},
             'trailer': {'/Root': R(B['cat'])}}
        if B['info']:
            s['trailer']['/Info'] = R(B['info'])
        if k in 'OHS' and (st != 'S'):
            can = [z for z in cur if not isinstance(cur[z][1], St) and cur[z][0] == 0 and rnd.random() < .6]
            if can:
                z = nxt[0]
                nxt[0] += 1
                s['emb'] = {z: [(q, cur.pop(q)[1]) for q in can]}
        if s['kind'] in 'SH':
            s['xs'] = nxt[0]
            nxt[0] += 1
            if s['kind'] == 'H' and not s['emb']:
                s['kind'] = 'S'
        secs.append(s)
    return pdfgen.build(secs, seed=SEED * 10 + b, eol=[b'\n', b'\r\n'][b % 2]).data


# ------------------------------------------------------------------ comparison
class Bad(Exception):
    pass


def isnull(v):
    return v is None or v == 'null'


class Match:
    """Simultaneous traversal of the model's document and the real one."""
    def __init__(self, doc, see, live, may, notes):
        self.doc, self.notes = doc, notes
        self.live, self.may = set(live), set(may)
        self.to, self.back, self.todo = {}, {}, []
        self.pages = {p['id']: p for p in see}
        self.see = see
        self.infra = set()
        self.alive = {}
        for r in P.in_use(doc):
            v = doc.get_object(r)
            e = getattr(v, 'entries', None)
            if e is not None and e.get('/Type') in ('/ObjStm', '/XRef'):
                continue
            self.alive[int(r.imag)] = (r, v)

    def bind(self, i, ref, where):
        if i not in self.live:
            return
        if not isinstance(ref, complex):
            raise Bad(f'{where}: {ref!r} instead of a reference to {i}')
        n = int(ref.imag)
        if n not in self.alive:
            raise Bad(f'{where}: object {i} is not live (reference {n})')
        if self.to.setdefault(i, n) != n or self.back.setdefault(n, i) != i:
            raise Bad(f'{where}: object {i} is {n}, was {self.to[i]} ({n} was {self.back.get(n)})')
        if i not in self.done:
            self.done.add(i)
            self.todo.append((i, n))

    def same(self, want, got, where):
        """want holds references complex(0, id) of the model."""
        if isnull(want):
            if not isnull(got) and not (isinstance(got, complex) and int(got.imag) not in self.alive):
                raise Bad(f'{where}: {got!r} instead of null')
        elif isinstance(want, complex):
            self.bind(int(want.imag), got, where)
        elif isinstance(want, dict):
            if not isinstance(got, dict):
                raise Bad(f'{where}: {got!r} instead of a dictionary')
            for k in set(want) | set(got):
                self.same(want.get(k), got.get(k), where + k)
        elif isinstance(want, list):
            if not isinstance(got, list) or len(got) != len(want):
                raise Bad(f'{where}: {got!r} instead of {want!r}')
            for j, (a, b) in enumerate(zip(want, got)):
                self.same(a, b, f'{where}[{j}]')
        elif isinstance(want, St):
            if not hasattr(got, 'entries'):
                raise Bad(f'{where}: not a stream')
            skip = ('/Filter', '/DecodeParms', '/Length')
            self.same({k: v for k, v in want.entries.items() if k not in skip},
                      {k: v for k, v in got.entries.items() if k not in skip}, where)
            if bytes(got.stream) != want.data:
                raise Bad(f'{where}: data {bytes(got.stream)[:40]!r} instead of {want.data[:40]!r}')
        elif canon(want) != canon(got):
            raise Bad(f'{where}: {got!r} instead of {want!r}')

    def content(self, i):
        off, b, k = i - i % 1000, i % 1000 // 100, i % 100
        if b == 9:
            x = self.notes[k]
            return {'/Type': '/Annot', '/Subtype': '/Text', '/Rect': RECTS[x['rect'] - 1], '/Open': x['open']}
        return plain(b, k, lambda j: complex(0, off + 100 * b + j))

    def node(self, ref, up, inh, out, depth=0):
        """The real page tree: returns the number of leaves below."""
        if depth > 60 or not isinstance(ref, complex) or int(ref.imag) not in self.alive:
            raise Bad(f'tree: bad kid {ref!r}')
        v = self.alive[int(ref.imag)][1]
        if not isinstance(v, dict):
            raise Bad(f'tree: {v!r}')
        if int(ref.imag) in self.tree:
            raise Bad('tree: node there twice')
        self.tree.add(int(ref.imag))
        par = v.get('/Parent')
        if up is None:
            if not isnull(par):
                raise Bad('tree: the root has a parent')
        elif not isinstance(par, complex) or int(par.imag) != up:
            raise Bad(f'tree: parent of {ref} is {par!r}, not {up}')
        now = {a: (v[a] if not isnull(v.get(a)) else inh.get(a)) for a in ATTRS}
        if v.get('/Type') == '/Page':
            out.append((ref, v, now))
            return 1
        if v.get('/Type') != '/Pages':
            raise Bad(f'tree: type {v.get("/Type")!r}')
        kids = self.doc.get_object(v['/Kids'])
        n = sum(self.node(k, int(ref.imag), now, out, depth + 1) for k in kids)
        c = self.doc.get_object(v['/Count'])
        if c != n or isinstance(c, bool):
            raise Bad(f'tree: /Count {c!r} of {ref} instead of {n}')
        return n

    def run(self):
        self.done, self.tree = set(), set()
        doc = self.doc
        root = docstruct.trailer(doc)['/Root']
        cat = doc.get_object(root)
        out = []
        n = self.node(cat['/Pages'], None, {}, out)
        if n != len(self.see):
            raise Bad(f'{n} pages in the tree instead of {len(self.see)}')
        if docstruct.number_pages(doc) != n or len(doc) != n:
            raise Bad(f'page count {docstruct.number_pages(doc)}, {len(doc)} instead of {n}')
        pl = P.pages(doc)
        if len(pl) != n:
            raise Bad(f'{len(pl)} pages listed instead of {n}')
        fl = docstruct.flat_page_tree(doc)
        if [x[0] for x in fl] != [x[0] for x in out]:
            raise Bad('flat_page_tree differs from the tree')
        lay = P.page_layouts(doc)
        for k, (p, (ref, v, eff), full_, la) in enumerate(zip(self.see, out, pl, lay)):
            self.bind(p['id'], ref, f'page {k}')
            self.page(p, v, eff, k)
            own = {a: x for a, x in full_.items() if a not in ATTRS}
            if canon(own) != canon({a: x for a, x in v.items() if a not in ATTRS}):
                raise Bad(f'page {k}: listed with {own!r}')
            self.attrs(p, full_, f'listed page {k}')
            for a in (1, 3):
                want = self.value(a, p['at'][a])
                if canon(want if a == 1 or p['at'][a][0] != '-' else None) != canon(la[0 if a == 1 else 1]):
                    raise Bad(f'layout of page {k}: {la!r} instead of {want!r}')
        for m in range(n + 2):
            if canon(P.pages(doc, m)) != canon(pl[:m]):
                raise Bad(f'pages up to {m}')
        while self.todo:
            i, num = self.todo.pop()
            if i in self.pages or i % 1000 // 100 == 8:
                continue
            b = i % 1000 // 100
            v = self.alive[num][1]
            if b == 9:
                self.note(i, v)
                continue
            t = BASES[b - 1]['objs'][i % 100 - 1]['t']
            if t in 'P':
                continue
            if t == 'L':            # no longer in the tree, or of another document
                self.same({k: x for k, x in self.content(i).items()},
                          {k: x for k, x in v.items() if k not in ATTRS and k not in ('/Annots', '/Parent')}, f'removed page {i}')
                continue
            self.same(self.content(i), v, f'object {i}')
        # catalog and information
        cid = self.catalog
        if cid is not None:
            self.bind(cid, root, 'catalog')
            self.same({k: x for k, x in self.content(cid).items()}, {k: x for k, x in cat.items() if k not in ('/Pages', '/Version')}, 'catalog')
            ir = docstruct.trailer(doc).get('/Info')
            if self.info:
                self.bind(self.info, ir, 'information')
        while self.todo:
            i, num = self.todo.pop()
            b = i % 1000 // 100
            v = self.alive[num][1]
            if b == 9:
                self.note(i, v)
            elif b != 8:
                t = BASES[b - 1]['objs'][i % 100 - 1]['t']
                if t in 'OVN':
                    self.same(self.content(i), v, f'object {i}')
        self.census()

    def value(self, a, v):
        off, b = v[1] - v[1] % 1000, v[1] % 1000 // 100
        if v[0] == 'i':
            x = self.content(v[1])
            return x
        return attr(a, v, lambda j: complex(0, j))

    def attrs(self, p, d, where):
        for a in range(4):
            v = p['at'][a]
            got = d.get(ATTRS[a])
            if v[0] == 'i':
                if not isinstance(got, complex):
                    self.same(self.value(a, v), got, where + ATTRS[a])
                else:
                    self.bind(v[1], got, where + ATTRS[a])
            else:
                x = None if v[0] == '-' else attr(a, v, lambda j: complex(0, j))
                self.same(x, self.doc.get_object(got) if isinstance(got, complex) else got, where + ATTRS[a])

    def page(self, p, v, eff, k):
        own = {a: x for a, x in v.items() if a not in ATTRS and a not in ('/Annots', '/Parent')}
        self.same(self.content(p['id']), own, f'page {k}')
        self.attrs(p, eff, f'page {k}')
        an = self.doc.get_object(v.get('/Annots'))
        an = [] if isnull(an) else an
        if not isinstance(an, list) or len(an) != len(p['ann']):
            raise Bad(f'page {k}: annotations {an!r} instead of {p["ann"]}')
        for a, i in zip(an, p['ann']):
            if isinstance(a, complex):
                self.bind(i, a, f'annotation of page {k}')
            else:
                self.note(i, a)

    def note(self, i, v):
        if i % 1000 // 100 != 9:
            return self.same(self.content(i), v, f'annotation {i}')
        if not isinstance(v, dict):
            raise Bad(f'annotation {i}: {v!r}')
        want, x = self.content(i), self.notes[i % 100]
        got = {k: y for k, y in v.items() if k in want}
        if isnull(got.get('/Open')):
            got['/Open'] = False
        got.setdefault('/Type', '/Annot')
        self.same(want, got, f'annotation {i}')
        c = self.doc.get_object(v.get('/Contents'))
        if not isinstance(c, bytes) or text_of(c) != x['text'] or P.text_string(c) != x['text']:
            raise Bad(f'annotation {i}: text {c!r} instead of {x["text"]!r}')

    def census(self):
        """Live tagged objects are those of the model, each once per copy."""
        have, want, extra = {}, {}, {}
        for n, (r, v) in self.alive.items():
            e = getattr(v, 'entries', v)
            t = e.get('/Tag') if isinstance(e, dict) else None
            if isinstance(t, bytes):
                m = TAG.match(string_content(t))
                if m:
                    k = int(m[1]) * 100 + int(m[2])
                    have[k] = have.get(k, 0) + 1
        for ids, d in ((self.live, want), (self.may, extra)):
            for i in ids:
                d[i % 1000] = d.get(i % 1000, 0) + 1
        for k in set(have) | set(want):
            if k // 100 in (8, 9):
                continue
            r = BASES[k // 100 - 1]['objs'][k % 100 - 1]
            if r['t'] not in 'ONL':
                continue
            h, w = have.get(k, 0), want.get(k, 0)
            if not w <= h <= w + extra.get(k, 0):
                raise Bad(f'object {k} is there {h} times instead of {w}')


def check(doc, s, notes, cat, info):
    m = Match(doc, s['see'], s['live'], s['may'], notes)
    m.catalog, m.info = cat, info
    try:
        m.run()
    except Bad as e:
        return str(e)


def saved(doc):
    fd, path = tempfile.mkstemp(prefix='verif_p_', suffix='.pdf')
    os.close(fd)
    try:
        P.writefile(doc, path)
        with open(path, 'rb') as f:
            return f.read()
    finally:
        os.unlink(path)


def snapshot(doc):
    """What must stay: live objects, changes, and the page list."""
    res = {}
    for r in P.in_use(doc):
        v = doc.get_object(r)
        if getattr(v, 'entries', {}).get('/Type') in ('/ObjStm', '/XRef'):
            continue
        res[int(r.imag)] = (int(r.real), canon(v))
    return res


def helpers(doc):
    """Numbers of the page tree nodes and of indirect lists of kids and counts, and of the catalog."""
    root = docstruct.trailer(doc)['/Root']
    res, todo = {int(root.imag)}, [doc.get_object(root)['/Pages']]
    while todo:
        x = todo.pop()
        v = doc.get_object(x)
        if v.get('/Type') == '/Pages':
            res.add(int(x.imag))
            for k in ('/Kids', '/Count'):
                if isinstance(v[k], complex):
                    res.add(int(v[k].imag))
            todo += doc.get_object(v['/Kids'])
    return res


def apply(doc, e, k, notes):
    """Returns (document, problem)."""
    op = e['op']
    zero = {x - 1 for x in e['S']}
    if op == 'remove':
        if len(zero) == 1 and k % 2:
            return P.remove_pages(doc, min(zero)), None
        return P.remove_pages(doc, zero), None
    if op == 'keep':
        if len(zero) == 1 and k % 2:
            return P.keep_pages(doc, min(zero)), None
        return P.keep_pages(doc, zero), None
    if op == 'iter':
        got = list(doc) if k % 2 else [x for x in doc]
        if len(got) != docstruct.number_pages(doc):
            return doc, f'{len(got)} items iterated'
        return got[min(zero)], None
    if op == 'index':
        return doc[e['k']], None
    if op == 'slice':
        a, b, s = [None if x == NOVAL else x for x in (e['a'], e['b'], e['d'])]
        return doc[a:b:s], None
    if op == 'rotate':
        if not zero:
            return (P.rotate(doc, e['d']) if k % 2 else P.rotate(doc, degrees=e['d'], pages=[])), None
        z = sorted(zero, reverse=bool(k % 2))
        if e['d'] == 90 and k % 3 == 0:
            return P.rotate(doc, pages=z), None
        return P.rotate(doc, e['d'], z), None
    if op == 'annotate':
        x = notes[e['n'] % 100]
        if not x['open'] and k % 2:
            return P.add_text_annotation(doc, e['k'] - 1, x['text'], RECTS[x['rect'] - 1]), None
        return P.add_text_annotation(doc, e['k'] - 1, x['text'], RECTS[x['rect'] - 1], x['open']), None
    if op == 'concat':
        other = doc if e['with'] == 0 else P.loads(DATA[e['with'] - 1])
        l, r = (doc, other) if e['left'] else (other, doc)
        tl = e['left'] == e['target']
        if tl and k % 2:
            return l + r, None
        return P.concat(l, r, tl), None
    if op == 'commit':
        return P.commit(doc), None
    if op == 'reload':
        return P.loads(saved(doc)), None
    if op == 'rewind':
        return P.rewind(doc), None
    if op == 'squash':
        return P.squash(doc), None
    if op == 'compress':
        return P.compress(doc), None
    raise MachineryError(op)


def frame(op, e, before, after, old, notes, new):
    """Objects the operation has nothing to do with keep their numbers and values."""
    if op not in ('remove', 'keep', 'iter', 'index', 'slice', 'rotate', 'annotate', 'concat', 'commit'):
        return
    if op == 'concat' and not e['target']:
        return
    h = helpers(old)
    pg = [x[0] for x in docstruct.flat_page_tree(old)]
    ok = set()
    if op == 'rotate':
        ok = {int(pg[k - 1].imag) for k in (e['S'] or range(1, len(pg) + 1))}
        h = set()
        if set(before) != set(after):
            return f'rotating changes the set of objects: {sorted(set(before) ^ set(after))}'
    elif op == 'annotate':
        h = set()
        page = old.get_object(pg[e['k'] - 1])
        ok = {int(pg[e['k'] - 1].imag)}
        if isinstance(page.get('/Annots'), complex):
            ok.add(int(page['/Annots'].imag))
        if not set(before) <= set(after):
            return 'annotating deletes objects'
    for n, v in before.items():
        if n in after and after[n] != v and n not in h:
            if n not in ok:
                return f'{op}: object {n} changed from {v} to {after[n]}'
            a, b = old.get_object(complex(v[0], n)), new.get_object(complex(after[n][0], n))
            key = '/Rotate' if op == 'rotate' else '/Annots'
            if isinstance(a, dict) and canon(a, drop=(key,)) != canon(b, drop=(key,)):
                return f'{op}: {a!r} became {b!r}'
        if n not in after and op in ('concat', 'rotate', 'annotate', 'commit'):
            return f'{op}: object {n} disappeared'


def run(tr):
    B = tr['base']
    doc = P.loads(DATA[B - 1])
    notes = {}
    cat, info = 100 * B + BASES[B - 1]['cat'], BASES[B - 1]['info'] and 100 * B + BASES[B - 1]['info']
    roots = []
    p = check(doc, tr['log'][0], notes, cat, info)
    if p:
        return [0, 'open', p]
    prev = snapshot(doc)
    for k, s in enumerate(tr['log'][1:], 1):
        e = s['e']
        if e['op'] == 'annotate':
            notes[e['n'] % 100] = {'text': ''.join(CHARS[x - 1] for x in e['text']), 'rect': e['rect'], 'open': e['open']}
        if e['op'] == 'concat' and not e['target']:
            b = e['with'] or None
            if b:
                cat, info = 100 * b + BASES[b - 1]['cat'], BASES[b - 1]['info'] and 100 * b + BASES[b - 1]['info']
        if e['op'] in ('commit', 'reload'):
            roots.append((cat, info))
        new, p = apply(doc, e, k + tr['id'], notes)
        p = p or check(new, s, notes, cat, info)
        if not p:
            after = snapshot(new)
            p = frame(e['op'], e, prev, after, doc, notes, new)
        if not p and snapshot(doc) != prev:
            p = 'the earlier document changed'
        if p:
            return [k, e['op'], p]
        doc, prev = new, after
    last = tr['log'][-1]
    p = check(P.loads(saved(doc)), last, notes, cat, info)
    if p:
        return [len(tr['log']), 'write', p]


KEYS = ('objs', 'root', 'cat', 'info', 'gone')


def strip(e):
    d = {k: v for k, v in e.items() if k in ('op', 'S')}
    op = e['op']
    if op == 'slice':
        d.update(a=e['a'], b=e['b'], s=e['d'])
    for k in {'rotate': ['d'], 'annotate': ['k', 'text', 'rect', 'open'], 'index': ['k'], 'concat': ['with', 'left', 'target']}.get(op, ()):
        d[k] = e[k]
    return d


INV = ['Counts', 'Parents', 'OneRoot', 'Inheritance', 'NoDangling', 'Distinct', 'Emit']
ALL = {'commit', 'reload', 'rewind', 'squash', 'compress'}
SL = {(a, b, s) for a in (99, -4, -2, -1, 0, 1, 2, 4) for b in (99, -3, -1, 0, 1, 2, 3, 5) for s in (99, 1, 2, 3, -1, -2)}


def behaviours(c, ops, depth, sim, bases_sim=0, **kw):
    setup(bases_sim)
    k = {'Bases': [{x: B[x] for x in KEYS} for B in BASES], 'Ops': set(ops), 'Depth': depth, 'Sim': bool(sim), 'MaxPages': 9,
         'TextKinds': len(CHARS), 'TextLen': 1, 'Rects': {1, 2, 3}, 'Angles': {90, -90, 180, 450, 45, 360}, 'Slices': SL}
    k.update(kw)
    r = c.tlc('Pages', k, invariants=INV, properties=['Refines'], **({'simulate': (sim, depth + 2)} if sim else {})).values
    if not r:
        raise MachineryError('no behaviour')
    for i, x in enumerate(r):
        x['id'] = i
    for x, q in zip(r, pmap(run, r, limit=60)):
        what = {'base': BASES[x['base'] - 1]['seed'], 'style': BASES[x['base'] - 1]['style'], 'ops': [strip(s['e']) for s in x['log'][1:]]}
        if isinstance(q, dict):
            c.violation(f'{c.pid}:{q["kind"]}', {**what, 'crash': q['crash']})
        elif q:
            c.violation(f'{c.pid}:{q[1]}', {**what, 'step': q[0], 'mismatch': q[2]})
    c.add(traces_validated_against_impl=len(r))
    c.sample({'base': r[-1]['base'], 'ops': [strip(s['e']) for s in r[-1]['log'][1:]]})
    return r


def random_ones(c, ops, depth):
    for i in range(8 if THOROUGH else 1):
        behaviours(c, ops, depth, 300 if THOROUGH else 120, i + 1)


def tree_value(a, x):
    """The value standing for number x of attribute a."""
    return [{'/Font': {}, '/T': x}, [0, 0, x, 100], [1, 1, x, 50], 90 * (x % 4) if x % 5 else 30][a]


def tree_bytes(x, i):
    n = len(x['up'])
    objs = {900: (0, {'/Type': '/Catalog', '/Pages': 1j})}
    pages = set(x['page'])
    kids = {k: [j + 1 for j in range(n) if x['up'][j] == k] for k in range(n + 1)}

    def count(k):
        return 1 if k in pages else sum(count(j) for j in kids[k])
    for k in range(1, n + 1):
        d = {'/Type': '/Page' if k in pages else '/Pages', '/T': k}
        if x['up'][k - 1]:
            d['/Parent'] = complex(0, x['up'][k - 1])
        if k not in pages:
            d['/Kids'] = [complex(0, j) for j in kids[k]]
            d['/Count'] = count(k)
            if (i + k) % 5 == 0:
                objs[400 + k] = (0, d['/Kids'])
                d['/Kids'] = complex(0, 400 + k)
        for a in range(4):
            v = x['val'][k - 1][a]
            if v == 'n':
                d[ATTRS[a]] = 'null'
            elif v == 'd':
                d[ATTRS[a]] = tree_value(a, k)
            elif v == 'i':
                objs[50 + 4 * k + a + 1] = (0, tree_value(a, 50 + 4 * k + a + 1))
                d[ATTRS[a]] = complex(0, 50 + 4 * k + a + 1)
        objs[k] = (0, d)
    s = {'kind': 'TS'[i % 2], 'objs': objs, 'free': {}, 'emb': {}, 'trailer': {'/Root': 900j}}
    if i % 2:
        s['xs'] = 901
        if i % 4 == 1:
            s['emb'] = {902: [(q, objs.pop(q)[1]) for q in list(objs) if (q + i) % 3]}
    return pdfgen.build([s], seed=i, plain=bool(i % 3)).data


def tree_check(doc, x):
    want = [{**{'/T': p['id']}, **{ATTRS[a]: tree_value(a, v[1]) for a, v in enumerate(p['at']) if v[0] in 'di' and v[1]}} for p in x['pl']]
    pl = P.pages(doc)
    got = [{k: doc.get_object(v) for k, v in p.items() if k in ATTRS or k == '/T'} for p in pl]
    if canon(got) != canon(want):
        return f'pages {got} instead of {want}'
    if docstruct.number_pages(doc) != len(want) or len(doc) != len(want):
        return 'number of pages'
    for m in range(len(want) + 2):
        if canon(P.pages(doc, m)) != canon(pl[:m]):
            return f'pages up to {m}: {P.pages(doc, m)}'
    if all('/MediaBox' in w for w in want):
        lay = P.page_layouts(doc)
        if canon(lay) != canon([[w['/MediaBox'], w.get('/Rotate')] for w in want]):
            return f'layouts {lay} instead of {want}'
    if [x[0] for x in docstruct.flat_page_tree(doc)] != [complex(0, p['id']) for p in x['pl']]:
        return 'list of references'


KEEP = []


def tree_run(case):
    i, x = case
    doc = P.loads(tree_bytes(x, i))
    p = tree_check(doc, x)
    if not p and KEEP:
        p = tree_check(*KEEP[-1])
        if p:
            p = 'after reading another document: ' + p
    if not p:
        p = tree_check(doc, x)
    KEEP[:] = [(doc, x)]
    return p


def shapes(c, spec, sim=None, **kw):
    """Page trees of PageShapes.tla."""
    setup(0)
    k = {'Bases': [{x: B[x] for x in KEYS} for B in BASES[:1]], 'Ops': {'x'}, 'Depth': 0, 'Sim': False, 'MaxPages': 9, 'TextKinds': 1, 'TextLen': 1,
         'Rects': {1}, 'Angles': {90}, 'Slices': {(1, 1, 1)}, 'Kinds': {'-', 'n', 'd', 'i'}, 'EachAttr': True}
    k.update(kw)
    r = c.tlc('PageShapes', k, spec=spec, invariants=['BottomUp', 'SEmit'], **({'simulate': (sim, k['MaxNodes'] + 1)} if sim else {})).values
    if not r:
        raise MachineryError('no trees')
    return r


def trees(c, spec, sim=None, **kw):
    r = shapes(c, spec, sim, **kw)
    cases = list(enumerate(r))
    for (i, x), q in zip(cases, pmap(tree_run, cases)):
        if isinstance(q, dict):
            c.violation(f'C16:{q["kind"]}', {'tree': x, 'crash': q['crash']})
        elif q:
            c.violation('C16:' + q.split(' ')[0], {'tree': x, 'mismatch': q})
    c.add(traces_validated_against_impl=len(r))
    c.sample(r[-1])


def c16(c):
    trees(c, 'Shapes', MinNodes=1, MaxNodes=4)
    trees(c, 'Shapes', MinNodes=5, MaxNodes=5, Kinds={'-', 'n', 'd', 'i'} if THOROUGH else {'-', 'n', 'd'}, EachAttr=THOROUGH)
    if THOROUGH:
        trees(c, 'Shapes', MinNodes=6, MaxNodes=6, Kinds={'-', 'd'}, EachAttr=False)
    trees(c, 'Random', 1500 if THOROUGH else 250, MinNodes=5, MaxNodes=12)
    random_ones(c, {'rotate', 'keep', 'concat', 'annotate'} | ALL, 5)


def c17(c):
    one = {'remove', 'keep', 'iter', 'index'}
    behaviours(c, one | {'slice'}, 1, 0)
    behaviours(c, one | {'reload', 'squash'}, 2, 0)
    random_ones(c, one | {'slice', 'rotate'} | ALL, 6)


def c18(c):
    behaviours(c, {'concat', 'remove', 'reload'}, 2, 0, Slices={(99, 99, 99)})
    random_ones(c, {'concat', 'remove', 'rotate', 'annotate'} | ALL, 6)


def c19(c):
    behaviours(c, {'rotate'}, 2 if THOROUGH else 1, 0)
    behaviours(c, {'rotate', 'reload', 'remove'}, 2, 0, Angles={90, -90, 450})
    random_ones(c, {'rotate', 'concat', 'keep', 'annotate'} | ALL, 7)


def c20(c):
    behaviours(c, {'annotate'}, 1, 0, TextLen=2, Rects={1})
    behaviours(c, {'annotate', 'reload', 'remove'}, 2, 0, TextLen=1, TextKinds=3, Rects={2})
    random_ones(c, {'annotate', 'concat', 'rotate', 'keep'} | ALL, 6)


# ------------------------------------------------------------------ fonts
FONTS = [   # type, base font, encoding, unicode map
    ('Type1', 'Helvetica', None, False), ('TrueType', 'ABCDEF+Arial,Bold', 'WinAnsiEncoding', True),
    ('Type0', 'Noto', 'Identity-H', True), ('Type1', 'Times-Roman', {'/Type': '/Encoding', '/Differences': [1, '/a']}, False),
    ('Type3', None, {'/Differences': [65, '/A']}, False), ('Type1', 'Helvetica', 'MacRomanEncoding', True),
    ('MMType1', 'Multi', 'WinAnsiEncoding', False)]
CMAP = b'1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <41> <0041> endbfchar'


def font_objs(f, first):
    t, name, enc, tou = FONTS[f]
    d = {'/Type': '/Font', '/Subtype': '/' + t}
    objs = {}
    if name:
        d['/BaseFont'] = '/' + name
    if enc:
        d['/Encoding'] = enc if isinstance(enc, dict) else '/' + enc
    if tou:
        objs[first + 1] = (0, St({}, CMAP))
        d['/ToUnicode'] = complex(0, first + 1)
    if t == 'Type0':
        objs[first + 2] = (0, {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Noto', '/DW': 500, '/W': [1, [2, 3], 4, 5, 6]})
        d['/DescendantFonts'] = [complex(0, first + 2)]
    elif f % 2:
        d.update({'/FirstChar': 65, '/LastChar': 66, '/Widths': [500, 600]})
    objs[first] = (0, d)
    return objs


def fonts_run(case):
    import contextlib, io
    from pdfsyntax import cli
    i, x = case
    rnd = random.Random(SEED * 13 + i)
    pages = set(x['page'])
    n = len(x['par'])
    kids = {k: [j + 1 for j in range(n) if x['par'][j] == k] for k in range(n + 1)}
    objs = {90: (0, {'/Type': '/Catalog', '/Pages': 1j})}
    fonts = list(range(len(FONTS)))
    rnd.shuffle(fonts)
    fnum = {}
    for f in range(len(x['inv'])):
        fnum[f] = 100 + 10 * f
        objs.update(font_objs(fonts[f], fnum[f]))
    rd = []
    for r, fs in enumerate(x['use']):
        d = {}
        if fs or rnd.random() < .5:
            fd = {}
            for f in fs:
                for a in range(rnd.choice([1, 1, 2])):
                    fd['/F%d.%d%s' % (f, a, rnd.choice('ab'))] = complex(0, fnum[f - 1])
            if rnd.random() < .4:
                objs[300 + r] = (0, fd)
                fd = complex(0, 300 + r)
            d['/Font'] = fd
        d['/ProcSet'] = ['/PDF']
        rd.append(d)

    def count(k):
        return 1 if k in pages else sum(count(j) for j in kids[k])
    for k in range(1, n + 1):
        d = {'/Type': '/Page' if k in pages else '/Pages'}
        if x['par'][k - 1]:
            d['/Parent'] = complex(0, x['par'][k - 1])
        if k not in pages:
            d['/Kids'], d['/Count'] = [complex(0, j) for j in kids[k]], count(k)
        else:
            d['/MediaBox'] = [0, 0, 100, 100]
        r = x['res'][k - 1]
        if r < 0:
            d['/Resources'] = 'null'
        elif r > 0:
            if rnd.random() < .4:
                objs[400 + r] = (0, rd[r - 1])
                d['/Resources'] = complex(0, 400 + r)
            else:
                d['/Resources'] = rd[r - 1]
        objs[k] = (0, d)
    s = {'kind': 'TS'[i % 2], 'objs': objs, 'free': {}, 'emb': {}, 'trailer': {'/Root': 90j}}
    if i % 2:
        s['xs'] = 500
    doc = P.loads(pdfgen.build([s], seed=i, plain=bool(i % 3)).data)
    for k in x['cuts']:
        doc = P.remove_pages(doc, k - 1)
    want = {}
    for f, ps in enumerate(x['inv']):
        if ps:
            want[fnum[f]] = (fonts[f], sorted(p - 1 for p in ps))
    inv = P.fonts(doc)
    res = []
    got = {int(r.imag): v for r, v in inv.items()}
    if len(inv) != len(got) or set(got) != set(want):
        return [f'fonts {sorted(got)} instead of {sorted(want)}']
    for num, (f, ps) in want.items():
        t, name, enc, tou = FONTS[f]
        g = got[num]
        if g['name'] != (name or '') or g['type'] != t or bool(g['to_unicode']) != tou:
            res.append(f'font {FONTS[f]}: {g}')
        if sorted(g['pages']) != ps:
            res.append(f'pages of font {FONTS[f]}: {g["pages"]} instead of {ps}')
        e = 'built-in' if enc is None and t == 'Type1' else enc if isinstance(enc, str) else 'other' if isinstance(enc, dict) else None
        if e is not None and g['encoding'] != e:
            res.append(f'encoding of font {FONTS[f]}: {g["encoding"]} instead of {e}')
    if i % 7 == 0 and not res:
        fd, path = tempfile.mkstemp(prefix='verif_f_', suffix='.pdf')
        os.close(fd)
        out = io.StringIO()
        try:
            P.writefile(doc, path)
            with contextlib.redirect_stdout(out):
                cli.print_fonts(path)
        finally:
            os.unlink(path)
        lines = [l for l in out.getvalue().split('\n')[1:] if l.strip()]
        if len(lines) != len(want):
            res.append(f'printed: {lines}')
        for num, (f, ps) in want.items():
            name = (FONTS[f][1] or '')[:30]
            if not any(l.split()[-2:] == [f'{num},0', str(len(ps))] and l.startswith(name) for l in lines):
                res.append(f'printed: {lines} without {num} on {len(ps)} pages')
    return res


def c27(c):
    a = c.tlc('FontUse', {'NFonts': 2, 'NRes': 2, 'MaxNodes': 4 if THOROUGH else 3, 'Cuts': 1, 'Sim': False}, invariants=['SameInventory', 'ResDomain', 'Emit']).values
    b = c.tlc('FontUse', {'NFonts': 6, 'NRes': 4, 'MaxNodes': 10, 'Cuts': 3, 'Sim': True}, invariants=['SameInventory', 'ResDomain', 'Emit'],
              simulate=(6000 if THOROUGH else 2000, 24)).values
    if not a or len(b) < 100:
        raise MachineryError('no inventory')
    cases = list(enumerate(a + b))
    for (i, x), q in zip(cases, pmap(fonts_run, cases)):
        if isinstance(q, dict):
            c.violation(f'C27:{q["kind"]}', {'document': x, 'crash': q['crash']})
        elif q:
            c.violation('C27:' + q[0].split(' ')[0], {'document': x, 'mismatch': q[0]})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(b[-1])
