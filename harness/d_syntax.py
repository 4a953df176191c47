"""C13, C14: texts and objects of Syntax.tla against the library's parser and serializer (see DESIGN.md)."""
import json, random
from decimal import Decimal
from pdfval import string_content
from vlib import SEED, THOROUGH, MachineryError, pmap
from pdfsyntax import objects as O

B = lambda s: list(s if isinstance(s, bytes) else s.encode('latin-1'))
PROFILES = [   # lead, chunks, quick length, thorough length
    ('(', ['(', ')', '\\', '0', '7', '8', '\r', '\n', 'n', 'a', '\x80', '%'], 4, 5),
    ('<', ['>', 'a', 'B', '9', ' ', '\n', '<', '('], 5, 7),
    ('/', ['A', '#', '4', '1', ' ', '(', '/', '\x80', '~', '*', '\x01'], 4, 6),
    ('', ['+', '-', '.', '0', '1', '9', ' '], 6, 7),
    ('[', [']', '[', '1', '0', 'R', ' ', '%x\n', '(])', '(\\))', '<41>', '/A', 'true', 'null', '-.5', '<<', '>>', '% ]\r'], 4, 5),
    ('<<', ['/A', '/B', ' ', '1', '>>', '<<', '>', '[', ']', '(>>)', '%>>\n', '<3E>', 'false', ' 0 R', '()', '/'], 4, 5),
    ('<</A', ['/', 'B', ' ', '>>', '<<', '[', ']', '<', '>', '%\n', '1', ' 5 0 R', '(', ')', '\\'], 5, 6),
    ('', ['[', ']', '<<', '>>', '/', '7', '(', ')', '<', '>', '%', '\n'], 5, 7),
]
INTS = [[], [1], [7], [4, 2], [1, 0], [6, 5, 5, 3, 5], [2, 1, 4, 7, 4, 8, 3, 6, 4, 8], [1] + [0] * 11]
FRACS = [[], [5], [0, 0, 1], [1, 2, 5], [9, 9, 9, 9, 9, 9, 9], [0, 0, 0, 0, 0, 0, 0, 0, 1], [3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3]]
NAMES = ['', 'A', 'Type', 'A B', 'C#D', 'Name.with-odd_chars!$^&*;\'"+@:', '1.2', '\xe9', 'r\xc3\xa9sum\xc3\xa9', '()', '<>[]{}/%', '\x01',
         '\x7f', '\xff\xfe', '\t\n\r', 'R', 'true', 'stream', 'Lengthy', 'a' * 30, '|~', '1', 'obj', 'F#41']
STRINGS = ['', 'a', 'hello', '(', ')', '((', '))', ')(', '()', '(()', '(a(b)c)', '\\', '\\\\', '\\n', '\n', '\r', '\r\n', '\n\n', '\n\r', '\\)',
           '\x00', '\x0012', '\x011', '\x07', '\b\f\t', '\x80\xff', '\xfe\xff\x00a\xd8\x3d\xde\x00', '% no comment', '<<>>', '[1 0 R]',
           'endobj', 'stream', '\x80\xa0\xad', '9', '123', '\r1', 'n', 'abc\\\ndef', 'x' * 30, '\x10\x20\xf0', 'end>', '<41>']
DATAS = ['', 'x', '\n', '\r', '\r\n', 'abc\n', 'abc\r', 'abc\r\n', '\nabc', 'endstream', '\nendstream\n', 'a\r\nendstream endobj', '(', '>>',
         'stream\n', '\x00\xff\x80', ' ', '\n\n\n', '%x', ''.join(map(chr, range(256))), 'endobj\n1 0 obj', '\t', '\n ', 'endstream\r']


def num(v):
    d = ''.join(map(str, v[2])) or '0'
    if v[0] == 'i':
        return -int(d) if v[1] else int(d)
    x = float(Decimal(d + '.' + (''.join(map(str, v[3])) or '0')))
    return -x if v[1] else x


def digits(d):
    return int(''.join(chr(x) for x in d) or '0')


def fix(v):
    """Object printed by TLC -> comparable form."""
    t = v[0]
    if t in 'if' and t != 'st':
        return (t, num([t, v[1], [chr(x) for x in v[2]]] + [[chr(x) for x in y] for y in v[3:]]))
    if t in 'ns':
        return (t, bytes(v[1]))
    if t == 'b':
        return (t, v[1] == 1)
    if t == 'r':
        return (t, digits(v[1]), digits(v[2]))
    if t == 'a':
        return (t, tuple(fix(x) for x in v[1]))
    if t == 'd':
        return (t, tuple(sorted((bytes(k), fix(x)) for k, x in v[1] if x != ['z'])))
    if t == 'st':
        return (t, fix(v[1]), bytes(v[2]))
    return ('z',)


def name_bytes(s):
    if type(s) is not str or not s.startswith('/'):
        raise ValueError(f'not a name: {s!r}')
    return s[1:].encode('latin-1')


def lib(v):
    """Library object -> comparable form."""
    if v is None or v == 'null':
        return ('z',)
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, float):
        return ('f', v)
    if isinstance(v, complex):
        return ('r', int(v.imag), int(v.real))
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        if not (v[:1] == b'(' and v[-1:] == b')' or v[:1] == b'<' and v[-1:] == b'>'):
            return ('?', v)
        return ('s', string_content(v))
    if isinstance(v, str):
        return ('n', name_bytes(v))
    if isinstance(v, list):
        return ('a', tuple(lib(x) for x in v))
    if isinstance(v, dict):
        return ('d', tuple(sorted((name_bytes(k), lib(x)) for k, x in v.items() if lib(x) != ('z',))))
    if isinstance(v, O.Stream):
        if v.stream != v.encoded:
            return ('?', 'decoded data differ')
        return ('st', lib(v.entries), bytes(v.encoded))
    return ('?', repr(v))


SUFFIX = [b'', b'\n', b'/N', b'(s)', b'<<', b'[', b'%c', b'\0', b'<41>']


def parse(case):
    x, n = case
    text, want = bytes(x['t']), fix(x['v'])
    res = []
    suf = SUFFIX[n % len(SUFFIX)]
    t = text[:x['e'] - 1] + suf if suf and want[0] not in ('st', 'd') else text
    got = lib(O.parse_obj(t))
    if got != want:
        res.append(('parse_obj', t, got, want))
    lead = [b'', b'(', b'12 ', b'<<\n'][n % 4]
    if lib(O.parse_obj(lead + text, len(lead))) != want:
        res.append(('parse_obj after other bytes', lead + text, lib(O.parse_obj(lead + text, len(lead))), want))
    whole = text[:x['e'] - 1] + [b' ', b'\n', b'%c\r'][n % 3]
    ind = b'%d 0 obj' % n + [b'\n', b' ', b'\r', b'%c\n'][n % 4] + whole + b'endobj\n'
    r = O.parse_indirect_obj(ind)
    if r[3]['o_num'] != n or r[3]['o_gen'] != 0 or lib(r[3]['obj']) != want or ind[:r[1]].split(b'endobj')[-1] != b'' or r[1] < len(ind) - 1:
        res.append(('parse_indirect_obj', ind, repr(r), want))
    for f, s, e, kind in x['k']:
        a = O.next_token(text, f - 1)
        if a != (s - 1, e - 1, kind):
            res.append(('next_token', text, f - 1, a, (s - 1, e - 1, kind)))
            break
    if want[0] == 's' and string_content(text[x['k'][-1][1] - 1:x['e'] - 1]) != want[1]:
        return {'machinery': f'string_content disagrees with the specification on {text!r}'}
    return res


def c13(c):
    prof = [{'lead': B(a), 'chunks': [B(x) for x in ch], 'n': m if THOROUGH else n} for a, ch, n, m in PROFILES]
    a = c.tlc('SyntaxTexts', {'Profiles': prof}, invariants=['Stable', 'Emit']).values
    b = gen(c, 30000 if THOROUGH else 4000, 0)
    if len(a) < 1000 or len(b) < 100:
        raise MachineryError('no texts')
    cases = [(x, i) for i, x in enumerate(a + b)]
    for (x, i), q in zip(cases, pmap(parse, cases)):
        if isinstance(q, dict):
            c.violation('C13:' + q['kind'], {'text': repr(bytes(x['t'])), 'crash': q['crash']})
        elif q:
            c.violation(f'C13:{q[0][0]}', {'text': repr(bytes(x['t'])), 'mismatch': [repr(z) for z in q[0]]})
    c.add(traces_validated_against_impl=len(cases))
    for x in (a[len(a) // 2], b[0], b[-1]):
        c.sample({'text': repr(bytes(x['t'])), 'object': repr(fix(x['v']))})


D = lambda l: [48 + x for x in l]


def gen(c, n, bare, size=14):
    fracs = [f for f in FRACS if len(f) < 5] if bare else FRACS
    k = {'Ints': {tuple(D(x)) for x in INTS}, 'Fracs': {tuple(D(x)) for x in fracs}, 'Names': [B(x) for x in NAMES],
         'Strings': [B(x) for x in STRINGS], 'Datas': [B(x) for x in DATAS], 'MaxSize': size, 'MaxDepth': 5, 'Bare': bare}
    return c.tlc('SyntaxGen', k, invariants=['ReaderAgrees', 'Emit'], simulate=(n, 60)).values


# ---------------------------------------------------------------- C14
def spell_string(b, r):
    """The library keeps strings as written: one of the spellings of b."""
    k = r.randrange(4)
    if k == 0:
        h = b.hex()
        return b'<' + (h if r.random() < .5 else h.upper()).encode() + b'>'
    if k == 1:
        return b'(' + b''.join(b'\\%03o' % x for x in b) + b')'
    out = bytearray(b'(')
    for x in b:
        if x in b'()\\':
            out += b'\\' + bytes([x])
        elif x == 13:
            out += b'\\r'
        else:
            out.append(x)
    return bytes(out) + b')'


def make(v, r):
    """Library object for a comparable form."""
    t = v[0]
    if t in ('i', 'f', 'b'):
        return v[1]
    if t == 'z':
        return r.choice([None, 'null'])
    if t == 'n':
        return '/' + v[1].decode('latin-1')
    if t == 's':
        return spell_string(v[1], r)
    if t == 'r':
        return complex(v[2], v[1])
    if t == 'a':
        return [make(x, r) for x in v[1]]
    if t == 'd':
        items = [('/' + k.decode('latin-1'), make(x, r)) for k, x in v[1]]
        r.shuffle(items)
        return dict(items)
    d = make(v[1], r)
    d.pop('/Length', None)
    s, n = O.forge_stream(d, v[2])
    if n != len(v[2]) or s.entries['/Length'] != n:
        raise ValueError('length of a forged stream')
    return s


def roundtrip(case):
    v, i = case
    want = fix(v)
    r = random.Random(SEED * 1000003 + i)
    o = make(want, r)
    before = lib(o)
    text = O.serialize(o)
    res = []
    if lib(o) != before:
        res.append(('serialize changes the object', before, lib(o)))
    tail = r.choice([b' ', b'\n', b'\r\n'])
    got = lib(O.parse_obj(text + tail))
    if got != want and not (want[0] == 'f' and got == ('i', want[1])):      # 1e20 reads as the same number
        res.append(('parse after serialize', text, got, want))
    ind = b'1 0 obj\n' + text + b'\nendobj\n'
    p = O.parse_indirect_obj(ind)
    if lib(p[3]['obj']) != got:
        res.append(('parse_indirect_obj after serialize', ind, lib(p[3]['obj']), want))
    return {'t': list(text + tail), 'bad': res}


def c14(c):
    b = gen(c, 30000 if THOROUGH else 6000, 1) + gen(c, 3000 if THOROUGH else 600, 1, 60)
    if len(b) < 1000:
        raise MachineryError('no objects')
    cases = [(x['v'], i) for i, x in enumerate(b)]
    extra = [[t, n, [48 + int(q) for q in str(a)], [48 + int(q) for q in f]] for a in ('', 5, 10 ** 20) for n in (0, 1)
             for t, f in (('f', '5'), ('f', '0000000000000001'), ('f', '1234567'), ('f', '')) if a or f]
    cases += [(v, len(cases) + i) for i, v in enumerate(extra)]
    res = pmap(roundtrip, cases)
    recs = []
    for (v, i), q in zip(cases, res):
        if 'crash' in q:
            c.violation('C14:' + q['kind'], {'object': repr(fix(v)), 'crash': q['crash']})
            continue
        if q['bad']:
            c.violation('C14:' + q['bad'][0][0], {'object': repr(fix(v)), 'mismatch': repr(q['bad'][0])})
        if i < len(b):
            recs.append({'id': i, 't': q['t'], 'v': v})
    step = 10000
    for k in range(0, len(recs), step):
        part = recs[k:k + step]
        r = c.tlc('SyntaxTrace', {'File': 'objects.ndjson'}, invariants=['Emit'],
                  files={'objects.ndjson': '\n'.join(json.dumps(x) for x in part) + '\n'})
        if sum(x.get('checked', 0) for x in r.values) != len(part):
            raise MachineryError('SyntaxTrace did not read every record')
        for x in r.values:
            if 'id' in x:
                v = cases[x['id']][0]
                c.violation('C14:reader', {'object': repr(fix(v)), 'bytes': repr(bytes(recs[[z['id'] for z in recs].index(x['id'])]['t']))})
    c.add(traces_validated_against_impl=len(cases))
    c.sample({'object': repr(fix(cases[0][0])), 'bytes': repr(bytes(res[0].get('t', [])))})
