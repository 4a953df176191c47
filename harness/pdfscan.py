"""Independent strict reader of PDF files (shares no code with pdfsyntax)."""
import base64, re, zlib
from pdfval import St, SUPPORTED

WS = b'\0\t\n\f\r '
DELIM = b'()<>[]{}/%'
NUM = re.compile(rb'^[+-]?(\d+\.?\d*|\.\d+)$')


class ScanError(Exception):
    pass


def skip_ws(d, i):
    while i < len(d):
        if d[i] in WS:
            i += 1
        elif d[i] == 37:
            while i < len(d) and d[i] not in b'\r\n':
                i += 1
        else:
            break
    return i


def regular(d, i):
    j = i
    while j < len(d) and d[j] not in WS and d[j] not in DELIM:
        j += 1
    return j


def token(d, i):
    """(kind, value, start, end); kinds: num name str kw [ ] << >> eof"""
    i = skip_ws(d, i)
    if i >= len(d):
        return ('eof', None, i, i)
    c = d[i:i + 1]
    if c == b'/':
        j = regular(d, i + 1)
        return ('name', d[i:j].decode('latin-1'), i, j)
    if c == b'(':
        depth, j = 0, i
        while j < len(d):
            x = d[j]
            if x == 92:
                j += 1
            elif x == 40:
                depth += 1
            elif x == 41:
                depth -= 1
                if depth == 0:
                    return ('str', d[i:j + 1], i, j + 1)
            j += 1
        raise ScanError(f'unterminated string at {i}')
    if d[i:i + 2] in (b'<<', b'>>'):
        return (d[i:i + 2].decode(), None, i, i + 2)
    if c == b'<':
        j = d.find(b'>', i)
        if j < 0 or any(x not in b'0123456789abcdefABCDEF' + WS for x in d[i + 1:j]):
            raise ScanError(f'bad hexadecimal string at {i}')
        return ('str', d[i:j + 1], i, j + 1)
    if c in (b'[', b']'):
        return (c.decode(), None, i, i + 1)
    j = regular(d, i)
    if j == i:
        raise ScanError(f'unexpected {c} at {i}')
    w = d[i:j]
    if NUM.match(w):
        return ('num', float(w) if b'.' in w else int(w), i, j)
    return ('kw', w.decode('latin-1'), i, j)


def value(d, i):
    """(value, end) of the object starting at i."""
    k, v, s, e = token(d, i)
    if k == 'num':
        if isinstance(v, int) and v >= 0:
            k2, v2, _, e2 = token(d, e)
            if k2 == 'num' and isinstance(v2, int):
                k3, v3, _, e3 = token(d, e2)
                if k3 == 'kw' and v3 == 'R':
                    return complex(v2, v), e3
        return v, e
    if k in ('name', 'str'):
        return v, e
    if k == 'kw':
        if v in ('true', 'false'):
            return v == 'true', e
        if v == 'null':
            return None, e
        raise ScanError(f'unexpected keyword {v} at {s}')
    if k == '[':
        r = []
        while True:
            t = token(d, e)
            if t[0] == ']':
                return r, t[3]
            x, e = value(d, e)
            r.append(x)
    if k == '<<':
        r = {}
        while True:
            t = token(d, e)
            if t[0] == '>>':
                return r, t[3]
            if t[0] != 'name':
                raise ScanError(f'dictionary key expected at {t[2]}')
            if t[1] in r:
                raise ScanError(f'duplicate key {t[1]} at {t[2]}')
            r[t[1]], e = value(d, t[3])
    raise ScanError(f'unexpected {k} at {s}')


def unpredict(b, p):
    pred = p.get('/Predictor', 1)
    if pred < 10:
        return b
    bits = p.get('/Colors', 1) * p.get('/BitsPerComponent', 8)
    cols, bpp = (p.get('/Columns', 1) * bits + 7) // 8, max(1, bits // 8)
    out, prev = b'', bytes(cols)
    for i in range(0, len(b), cols + 1):
        t, row = b[i], bytearray(b[i + 1:i + 1 + cols])
        for j in range(len(row)):
            a = row[j - bpp] if j >= bpp else 0
            u = prev[j]
            c = prev[j - bpp] if j >= bpp else 0
            if t == 0:
                q = 0
            elif t == 1:
                q = a
            elif t == 2:
                q = u
            elif t == 3:
                q = (a + u) // 2
            else:
                pp = a + u - c
                q = a if abs(pp - a) <= abs(pp - u) and abs(pp - a) <= abs(pp - c) else \
                    u if abs(pp - u) <= abs(pp - c) else c
            row[j] = (row[j] + q) & 255
        out += bytes(row)
        prev = row
    return out


def decode(raw, entries):
    """Decoded data, or None when a filter is not supported."""
    f, p = entries.get('/Filter'), entries.get('/DecodeParms')
    if f is None:
        return raw
    if not isinstance(f, list):
        f, p = [f], [p]
    elif not isinstance(p, list):
        p = [None] * len(f)
    p = list(p) + [None] * (len(f) - len(p))
    for x, q in zip(f, p):
        if x == '/FlateDecode':
            try:
                raw = unpredict(zlib.decompress(raw), q or {})
            except zlib.error as e:
                raise ScanError(f'Flate: {e}')
        elif x == '/ASCIIHexDecode':
            h = bytes(c for c in raw.split(b'>')[0] if c not in WS)
            raw = bytes.fromhex((h + b'0' * (len(h) % 2)).decode('latin-1'))
        elif x == '/ASCII85Decode':
            h = bytes(c for c in raw.split(b'~>')[0] if c not in WS)
            raw = base64.a85decode(h)
        else:
            return None
    return raw


def indirect(d, i, length_of=None):
    """Indirect object at i: dict(num, gen, start, end, value, lenok)"""
    a = token(d, i)
    b = token(d, a[3])
    c = token(d, b[3])
    if a[0] != 'num' or b[0] != 'num' or c[:2] != ('kw', 'obj') or not isinstance(a[1], int):
        raise ScanError(f'indirect object expected at {i}')
    v, e = value(d, c[3])
    t = token(d, e)
    o = {'num': a[1], 'gen': b[1], 'start': a[2], 'lenok': True}
    if t[:2] == ('kw', 'stream'):
        if not isinstance(v, dict):
            raise ScanError(f'stream without dictionary at {i}')
        s = t[3]
        if d[s:s + 2] == b'\r\n':
            s += 2
        elif d[s:s + 1] == b'\n':
            s += 1
        else:
            raise ScanError(f'no end of line after stream at {s}')
        n = v.get('/Length')
        if isinstance(n, complex) and length_of:
            n = length_of(n)
        if not isinstance(n, int) or n < 0:
            raise ScanError(f'bad /Length {n!r} at {i}')
        f = s + n
        k = f
        if d[k:k + 2] == b'\r\n':
            k += 2
        elif d[k:k + 1] in (b'\n', b'\r'):
            k += 1
        if d[k:k + 9] != b'endstream':
            o['lenok'] = False
            k = d.find(b'endstream', s)
            f = k - 1 if d[k - 1:k] in (b'\n', b'\r') else k
            if k < 0:
                raise ScanError(f'no endstream at {i}')
        raw = d[s:f]
        dec = decode(raw, v)
        v = St(v, raw if dec is None else dec, raw)
        t = token(d, k + 9)
    if t[:2] != ('kw', 'endobj'):
        raise ScanError(f'endobj expected at {t[2]}')
    o['value'], o['end'] = v, t[3]
    return o


def objstm(st):
    """[(num, offset, value, exact)] of an object stream; exact: the slice holds exactly one object."""
    n, first = st.entries['/N'], st.entries['/First']
    d, e, heads = st.data, 0, []
    for _ in range(n):
        a = token(d, e)
        b = token(d, a[3])
        if a[0] != 'num' or b[0] != 'num' or b[3] > first:
            raise ScanError('bad object stream header')
        heads.append((a[1], b[1]))
        e = b[3]
    clean = token(d[:first], e)[0] == 'eof'
    res = []
    for k, (num, off) in enumerate(heads):
        v, e = value(d, first + off)
        stop = first + heads[k + 1][1] if k + 1 < n else len(d)
        res.append((num, off, v, clean and token(d[:stop], e)[0] == 'eof' and e <= stop))
    return res


ENTRY = re.compile(rb'^(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)$')


def xref_at(d, pos):
    """Cross-reference section at pos: dict(kind, pos, trailer, entries=[(num, type, a, b)], wellformed, end)"""
    if d[pos:pos + 4] == b'xref':
        i = pos + 4
        m = re.compile(rb'[ ]*(\r\n|\n|\r)').match(d, i)
        if not m:
            raise ScanError(f'end of line expected after xref at {pos}')
        i, entries, well = m.end(), [], True
        while True:
            m = re.compile(rb'(\d+) (\d+)[ ]*(\r\n|\n|\r)').match(d, i)
            if not m:
                break
            i = m.end()
            for k in range(int(m.group(2))):
                e = ENTRY.match(d[i:i + 20])
                if not e:
                    raise ScanError(f'bad 20-byte entry at {i}: {d[i:i+20]!r}')
                entries.append((int(m.group(1)) + k, 'n' if e.group(3) == b'n' else 'f', int(e.group(1)),
                                int(e.group(2))))
                i += 20
        t = token(d, i)
        if t[:2] != ('kw', 'trailer'):
            raise ScanError(f'trailer expected at {i}')
        tr, e = value(d, t[3])
        return {'kind': 'T', 'pos': pos, 'trailer': tr, 'entries': entries, 'well': well, 'end': e, 'num': 0}
    o = indirect(d, pos)
    if not isinstance(o['value'], St) or o['value'].entries.get('/Type') != '/XRef':
        raise ScanError(f'no cross-reference section at {pos}')
    tr, data = o['value'].entries, o['value'].data
    w, idx = tr['/W'], tr.get('/Index', [0, tr['/Size']])
    entries, i = [], 0
    well = o['lenok'] and len(idx) % 2 == 0 and len(data) == sum(w) * sum(idx[1::2])
    for s, n in zip(idx[::2], idx[1::2]):
        for k in range(n):
            f, j = [], i
            for x in w:
                f.append(int.from_bytes(data[j:j + x], 'big') if x else None)
                j += x
            i = j
            typ = 1 if f[0] is None else f[0]
            entries.append((s + k, {0: 'f', 1: 'n', 2: 'e'}.get(typ, '?'), f[1] or 0, f[2] or 0))
    return {'kind': 'S', 'pos': pos, 'trailer': tr, 'entries': entries, 'well': well, 'end': o['end'],
            'num': o['num']}


def chain(d):
    """Sections from the last one: each with its hybrid stream part under 'stm'."""
    k = d.rfind(b'startxref')
    if k < 0:
        raise ScanError('no startxref')
    pos = token(d, k + 9)[1]
    res, seen = [], set()
    while pos is not None:
        if pos in seen:
            raise ScanError('circular /Prev')
        seen.add(pos)
        x = xref_at(d, pos)
        if x['kind'] == 'T' and '/XRefStm' in x['trailer']:
            x['stm'] = xref_at(d, x['trailer']['/XRefStm'])
        res.append(x)
        pos = x['trailer'].get('/Prev')
    return res


def resolve(d, sections):
    """{num: ('n', offset, gen) | ('e', container, index)} for a chain (latest first)."""
    m = {}
    for x in sections:
        local = {}
        for num, t, a, b in x['entries']:
            if t == 'f' and 'stm' in x and any(e[0] == num for e in x['stm']['entries']):
                continue
            local.setdefault(num, (t, a, b))
        for num, t, a, b in (x['stm']['entries'] if 'stm' in x else []):
            local.setdefault(num, (t, a, b))
        for num, e in local.items():
            m.setdefault(num, e)
    m.pop(0, None)
    return m


def read_pdf(d, skip=0):
    """(trailer, {num: (gen, value)}) of the file, ignoring its `skip` last sections."""
    sections = chain(d)[skip:]
    m = resolve(d, sections)

    def length_of(r):
        e = m.get(int(r.imag))
        return indirect(d, e[1])['value'] if e and e[0] == 'n' else None
    res, stms = {}, {}
    for num, (t, a, b) in m.items():
        if t == 'n':
            o = indirect(d, a, length_of)
            if o['start'] != a or (o['num'], o['gen']) != (num, b):
                raise ScanError(f'entry {num} {b} leads to {o["num"]} {o["gen"]} at {a}')
            res[num] = (b, o['value'])
    for num, (t, a, b) in m.items():
        if t == 'e':
            if a not in stms:
                if a not in res or not isinstance(res[a][1], St):
                    raise ScanError(f'object stream {a} is missing')
                stms[a] = objstm(res[a][1])
            if b >= len(stms[a]) or stms[a][b][0] != num:
                raise ScanError(f'object {num} is not number {b} of object stream {a}')
            res[num] = (0, stms[a][b][2])
    return sections[0]['trailer'] if sections else {}, res
