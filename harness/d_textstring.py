"""C21: spellings of texts, generated by TextString.tla, decoded by the library (see DESIGN.md)."""
import random
import pdfgen
from vlib import SEED, THOROUGH, MachineryError, pmap
import pdfsyntax as P
from pdfsyntax import text as T

B = lambda s: list(s if isinstance(s, bytes) else s.encode('latin-1'))
PROFILES = [   # lead, chunks, quick, thorough, tail
    ('(', ['(', ')', '\\', '0', '1', '7', '8', '\r', '\n', 'n', 'a', '\x8d'], 4, 5, ')'),
    ('(\\', ['0', '1', '2', '3', '7', '8', '9', '\\', 'r', 'x', '\r', '\n', '(', ')', 't', 'b', 'f'], 4, 5, ')'),
    ('(\xfe\xff', ['\x00', 'a', '\\0', '\\377', '\xd8', '\\334', '\xdc', '\\\n', '\\(', '\x04'], 4, 6, ')'),
    ('<', ['1', 'a', 'B', '9', ' ', '\n', '\t', '0', 'F'], 5, 6, '>'),
    ('<FeFF', ['0', '4', 'D', '8', 'c', ' ', '\r'], 5, 7, '>'),
    ('<f E\nfF', ['00', '41', 'd8', '3D', 'DC', '00', '\r'], 5, 6, '>'),
]
CODES = [9, 10, 13, 32, 40, 41, 48, 55, 57, 65, 92, 110, 114, 97, 60, 62, 126, 160 + 1, 254, 255, 233, 0x20ac, 0x2022, 0x2014, 0x2d8,
         0x2dc, 0xfb01, 0x152, 0x17e, 0x3b1, 0x4e2d, 0xffff - 2, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x10ffff, 0x100, 0xff, 0x28, 0x5c29, 0x0d0a, 0x2929]
ENTRIES = ['/Title', '/Author', '/Subject', '/Keywords', '/Creator', '/Producer']


def run(case):
    i, part = case
    r = random.Random(SEED * 31 + i)
    res = []
    info, objs, want = {}, {}, {}
    for k, (x, name) in enumerate(zip(part, ENTRIES)):
        raw, text = bytes(x['raw']), ''.join(map(chr, x['text']))
        got = T.text_string(raw)
        if got != text:
            res.append(('text_string', raw, got, text))
        if r.random() < .3:
            objs[10 + k] = (0, raw)
            info[name] = complex(0, 10 + k)
        else:
            info[name] = raw
        want[name[1:]] = text
    secs = [{'kind': r.choice('TSH'), 'free': {}, 'emb': {}, 'trailer': {'/Root': 1j, '/Info': 4j},
             'objs': {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}),
                      3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}), 4: (0, info), **objs}}]
    if secs[0]['kind'] in 'SH':
        secs[0]['xs'] = 30
        emb = [n for n in [4] + list(objs) if r.random() < .6]
        secs[0]['emb'] = {31: [(n, secs[0]['objs'].pop(n)[1]) for n in emb]} if emb else {}
        if secs[0]['kind'] == 'H' and not emb:
            secs[0]['kind'] = 'S'
    doc = P.loads(pdfgen.build(secs, seed=SEED + i).data)
    for turn in ('as read', 'after writing'):
        m = P.metadata(doc)
        for k, v in want.items():
            if (m[k] or '') != v:
                res.append((f'metadata {turn}', k, part[ENTRIES.index('/' + k)]['raw'], m[k], v))
        if any(m[e[1:]] is not None for e in ENTRIES if e[1:] not in want):
            res.append((f'metadata {turn}', 'absent entries', m))
        if turn == 'as read' and i % 4 == 0:
            doc = P.loads(_saved(P.squash(doc)))
    return res


def _saved(doc):
    import os, tempfile
    fd, path = tempfile.mkstemp(prefix='verif_t_', suffix='.pdf')
    os.close(fd)
    try:
        P.writefile(doc, path)
        with open(path, 'rb') as f:
            return f.read()
    finally:
        os.unlink(path)


def c21(c):
    prof = [{'lead': B(a), 'chunks': [B(x) for x in ch], 'n': t if THOROUGH else q, 'tail': B(e)} for a, ch, q, t, e in PROFILES]
    k = {'Profiles': prof, 'Codes': set(CODES), 'MaxText': 12}
    a = c.tlc('TextString', k, spec='Grow', invariants=['GEmit']).values
    b = c.tlc('TextString', k, spec='Derive', invariants=['RoundTrip', 'DEmit'], simulate=(40000 if THOROUGH else 6000, 15)).values
    if len(a) < 1000 or len(b) < 1000:
        raise MachineryError('no texts')
    seen, all_ = set(), []
    for x in a + b:
        t = bytes(x['raw'])
        if t not in seen:
            seen.add(t)
            all_.append(x)
    random.Random(SEED).shuffle(all_)
    parts = [(i, all_[6 * i:6 * i + 6]) for i in range((len(all_) + 5) // 6)]
    for (i, part), q in zip(parts, pmap(run, parts)):
        if isinstance(q, dict):
            c.violation('C21:' + q['kind'], {'strings': [repr(bytes(x['raw'])) for x in part], 'crash': q['crash']})
        elif q:
            c.violation('C21:' + q[0][0], {'mismatch': repr(q[0])})
    c.add(traces_validated_against_impl=len(all_))
    c.sample({'raw': repr(bytes(b[-1]['raw'])), 'text': b[-1]['text']})
