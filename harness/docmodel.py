"""Concretization of the abstract documents of Files.tla / Revisions.tla.

An abstract cell <<1, v, r>> of object oid stands for the value val(oid, v, r); values carry a tag so that an object
of a real document is recognized whatever its number."""
import copy, random, re
import pdfgen
from pdfval import St, canon, string_content

CAT, PAGES, PAGE, INFO = 1, 2, 3, 4
DATA = [b'', b'x', b'line\n', b'\r\n', b'\nendstream\nendobj\n', b'end\r', bytes(range(256)), b'0 0 0\n' * 40, b'>> stream\r\n\n']
TAG = re.compile(rb'o(\d+)v(\d+) ')


# Empty values, which may be taken for missing ones, for some objects modified in a history (see plain_mode)
EMPTY = {5: [], 6: 0, 9: False, 11: b'()', 12: [], 13: False}
PLAIN = {}


def plain_mode(k):
    """k = 0: tags only; otherwise objects 5, 6, 9 (1) or 6, 11, 12, 13 (2) get empty values when modified."""
    PLAIN.clear()
    PLAIN.update({o: EMPTY[o] for o in [(), (5, 6, 9), (6, 11, 12, 13)][k]})


def same_plain(a, b):
    return type(a) == type(b) and a == b


def tag(oid, v):
    return b'(o%dv%d \\) >> ] %% endobj \\\\)' % (oid, v) if (oid + v) % 2 else b'<' + (b'o%dv%d x' % (oid, v)).hex().encode() + b'>'


def val(oid, v, r, R, stream_ok=True):
    """Library-style value; R(oid) gives the reference to an object. Streams are St."""
    if v > 3 and oid in PLAIN:
        return copy.copy(PLAIN[oid])
    t = tag(oid, v)
    ref = R(r) if r > 0 else 'null'     # r < 0: the object referred to is not live
    if oid == CAT:
        return {'/Type': '/Catalog', '/Pages': R(PAGES), '/Tag': t}
    if oid == PAGES:
        return {'/Type': '/Pages', '/Kids': [R(PAGE)], '/Count': 1, '/Tag': t}
    if oid == PAGE:
        d = {'/Type': '/Page', '/Parent': R(PAGES), '/MediaBox': [0, 0, 595, 842 + v], '/Resources': {}, '/Tag': t}
        if r:
            d['/PieceInfo'] = [ref]
        return d
    if oid == INFO:
        d = {'/Title': b'(title %d)' % v, '/Tag': t}
        if r:
            d['/R'] = ref
        return d
    k = (oid * 5 + v) % 9
    if k in (2, 6, 8) and not stream_ok:
        k = 5
    if k in (3, 4) and r:
        k = 0
    if k == 0:
        return {'/Tag': t, '/R': ref, '/N': {'/A': [1, -2.5, True, 'null', {}], '/B': '/Name'}}
    if k == 1:
        return [t, ref, [ref, {'/K': ref}, []], '/X', 0.000125]
    if k == 2:
        f = (oid + v) % 4
        e = {'/Tag': t, '/R': ref}
        if f:
            e['/Filter'] = ['/FlateDecode', '/ASCIIHexDecode', ['/ASCII85Decode', '/FlateDecode']][f - 1]
        return St(e, DATA[(oid + v) % len(DATA)])
    if k == 3:
        return oid * 1000 + v
    if k == 4:
        return t
    if k == 5:
        return {'/Tag': t, '/D': {'/E': {'/F': [[ref], {'/G': ref}]}}, '/S': b'(a \\(b\\) (c) \\\\)', '/T': False}
    if k == 7:
        return {'/R': ref, '/Tag': t, '/H': b'<0aFF>', '/Big': 2147483648, '/Neg': -7}
    return St({'/R': ref, '/Sub': {'/Q': [ref]}, '/Tag': t}, DATA[(oid * 3 + v) % len(DATA)])


def tag_of(v):
    """(oid, v) of a tagged value, None for the objects of the file structure."""
    for o, x in PLAIN.items():
        if same_plain(x, v):
            return (o, 0)
    if hasattr(v, 'entries'):
        if v.entries.get('/Type') in ('/ObjStm', '/XRef'):
            return None
        v = v.entries
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, int):
        return (v // 1000, v % 1000)
    if isinstance(v, dict):
        if '/Linearized' in v or v == {}:
            return None
        t = v.get('/Tag')
        if t is None:
            k = {'/Catalog': CAT, '/Pages': PAGES, '/Page': PAGE}.get(v.get('/Type'))
            return (k, 0) if k else ('?', repr(v)[:60])
    elif isinstance(v, list):
        t = v[0] if v else None
    else:
        t = v
    if isinstance(t, bytes):
        m = TAG.match(string_content(t))
        if m:
            return (int(m.group(1)), int(m.group(2)))
    return ('?', repr(v)[:60])


def project(objs):
    """objs: {num: (gen, value)} of live objects -> ({oid: canonical value}, {oid: ref}, problems)."""
    num2oid, problems, refs = {}, [], {}
    for n, (g, v) in objs.items():
        t = tag_of(v)
        if t is None:
            continue
        if t[0] == '?':
            problems.append(f'unknown object {n}: {t[1]}')
            continue
        if t[0] in refs:
            problems.append(f'object {t[0]} is there twice ({refs[t[0]]}, {n})')
        num2oid[n] = t[0]
        refs[t[0]] = complex(g, n)

    def ref(r):
        o = num2oid.get(int(r.imag))
        return None if o is None else ('r', o)
    res = {}
    for n, (g, v) in objs.items():
        if n in num2oid:
            res[num2oid[n]] = canon(v, ref, drop=('/Version',) if num2oid[n] == CAT else ())
    return res, refs, problems


BLANK = {CAT: {'/Type': '/Catalog', '/Pages': 2j},
         PAGES: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
         PAGE: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 595, 842], '/Resources': {}}}


def expected(live, raws=None):
    """live: Visible(rev), sequence of <<1, v, r>> or <<0,0,0>> -> {oid: canonical value}."""
    res = {}
    for i, c in enumerate(live):
        if c[0] == 1:
            oid = i + 1
            if oid <= 3 and c[1] == 0:
                v = BLANK[oid]
            else:
                v = val(oid, c[1], c[2], lambda o: complex(0, o))
            res[oid] = canon(v, lambda r: ('r', int(r.imag)) if r.imag else None)
    return res


class Base:
    """A base document: abstract sections and the file that realizes them."""
    def __init__(self, name, secs, data, infra=(), built=None):
        self.name, self.secs, self.data, self.infra, self.built = name, secs, data, set(infra), built


def realize(name, secs, styles, seed=1, gens=None, **kw):
    """secs: abstract sections [[(k,v,r)..]..]; styles: one per section among T, S, O (stream + object streams), H, LT, LS.

    Infrastructure objects get numbers above 40."""
    gens = gens or {}
    rnd = random.Random(seed)
    nxt = [max(len(s) for s in secs) + 1]

    def fresh():
        nxt[0] += 1
        return nxt[0] - 1
    out, infra, freed = [], [], {}
    dead = set()
    for j, (sec, st) in enumerate(zip(secs, styles)):
        objs, free, emb = {}, {}, {}

        def R(o):
            return complex(gens.get(o, 0), o)
        em = []
        for i, c in enumerate(sec):
            n = i + 1
            if c[0] == 1:
                v = val(n, c[1], c[2], R)
                can = not isinstance(v, St) and gens.get(n, 0) == 0
                if st in ('O', 'H') and can and n > 2 and (n + j) % 3 != 0:
                    em.append((n, v))
                else:
                    objs[n] = (gens.get(n, 0), v)
            elif c[0] == 2:
                free[n] = (0, gens.get(n, 0) + 1)
        s = {'kind': {'T': 'T', 'S': 'S', 'O': 'S', 'H': 'H', 'LT': 'T', 'LS': 'S'}[st], 'objs': objs, 'free': free,
             'trailer': {'/Root': complex(0, CAT)}}
        if any(len(x) >= INFO and x[INFO - 1][0] == 1 for x in secs):
            s['trailer']['/Info'] = complex(0, INFO)
        s['trailer']['/ID'] = [b'<00ff>', b'(id\\))']
        if em:
            k = 1 if len(em) < 3 else 2
            for q in range(k):
                part = em[q::k]
                z = fresh()
                emb[z] = part
                infra.append(z)
        s['emb'] = emb
        if st in ('S', 'O', 'H', 'LS'):
            s['xs'] = fresh()
            infra.append(s['xs'])
        if st == 'H':
            s['cover'] = [m for l in emb.values() for m, _ in l] if j == 0 else []
        if st in ('LT', 'LS'):
            s['lin'] = fresh()
            infra.append(s['lin'])
            s['first'] = {n for n in objs if n in (CAT, PAGE) or n > 5}
            if st == 'LS':
                s['xs2'] = fresh()
                infra.append(s['xs2'])
        if free:
            ns = sorted(free)
            for a, b in zip(ns, ns[1:] + [0]):
                free[a] = (b, free[a][1])
            s['zero'] = True
        out.append(s)
    b = pdfgen.build(out, seed=seed, **kw)
    return Base(name, secs, b.data, infra, b)
