"""Independent writer of PDF files from a plan of sections (shares no code with pdfsyntax).

A section is a dict: kind 'T' (table), 'S' (cross-reference stream) or 'H' (hybrid); objs {num: (gen, value)};
emb {stream number: [(num, value), ..]}; free {num: (next, gen)}; xs (number of the cross-reference stream object);
lin (True: linearized first revision); trailer (extra entries). Streams are St with decoded data."""
import base64, random, zlib
from pdfval import St


def num(v):
    if isinstance(v, bool):
        return b'true' if v else b'false'
    if isinstance(v, int):
        return str(v).encode()
    s = f'{v:.10f}'.rstrip('0')
    return (s + '0' if s.endswith('.') else s).encode()


def encode(data, f, p=None):
    if f == '/FlateDecode':
        if p and p.get('/Predictor', 1) >= 10:
            c, out, prev = p['/Columns'], b'', bytes(p['/Columns'])
            for i in range(0, len(data), c):
                row = data[i:i + c]
                t = (i // c) % 3
                if t == 0:
                    out += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, prev))
                elif t == 1:
                    out += b'\x00' + row
                else:
                    out += b'\x01' + bytes((a - b) & 255 for a, b in zip(row, b'\0' + row))
                prev = row
            data = out
        return zlib.compress(data)
    if f == '/ASCIIHexDecode':
        h = data.hex()
        return '\n'.join(h[i:i + 60] for i in range(0, len(h), 60)).encode() + b'>'
    if f == '/ASCII85Decode':
        return base64.a85encode(data, wrapcol=60) + b'~>'
    return data


def raw_of(st):
    if st.raw is not None:
        return st.raw
    f, p = st.entries.get('/Filter'), st.entries.get('/DecodeParms')
    d = st.data
    if f is not None:
        fs = f if isinstance(f, list) else [f]
        ps = p if isinstance(p, list) else [p] * len(fs)
        for x, q in reversed(list(zip(fs, ps))):
            d = encode(d, x, q)
    return d


class Writer:
    def __init__(self, seed=0, eol=b'\n', plain=False, comments=True):
        self.r = random.Random(seed)
        self.eol, self.plain, self.comments = eol, plain, comments

    def ws(self, must):
        """White space between two tokens."""
        r = self.r.random()
        if self.plain or r < .6:
            return b' ' if must or r < .4 else b''
        if r < .7:
            return self.eol
        if r < .8:
            return self.r.choice([b'\t', b'  ', b'\0', b'\f', b' \r\n'])
        if r < .84 and self.comments:
            return self.r.choice([b'%)>>\n', b' % ] endobj (\r', b'%x\r\n'])
        return b' '

    def spell(self, v):
        if v is None or v == 'null':
            return b'null'
        if isinstance(v, (bool, int, float)):
            return num(v)
        if isinstance(v, complex):
            return str(int(v.imag)).encode() + b' ' + str(int(v.real)).encode() + b' R'
        if isinstance(v, bytes):
            return v
        if isinstance(v, str):
            return v.encode('latin-1')
        if isinstance(v, (list, tuple)):
            return self.join(b'[', [x for x in v], b']')
        if isinstance(v, dict):
            items = []
            for k, x in v.items():
                items += [k, x]
            return self.join(b'<<', items, b'>>')
        raise TypeError(v)

    def join(self, a, items, b):
        out = a
        for x in items:
            s = self.spell(x)
            must = out[-1:] not in b'[<>(])' and s[:1] not in b'/[<('
            out += self.ws(must) + s
        return out + self.ws(False) + b

    def obj(self, n, gen, v, length_ref=None):
        """Bytes of an indirect object."""
        e = self.eol
        if self.plain:
            out = f'{n} {gen} obj'.encode() + e
        else:
            out = str(n).encode() + self.ws(True) + str(gen).encode() + self.ws(True) + b'obj'
            first = self.spell(v)[:1] if not isinstance(v, St) else b'<'
            out += self.r.choice([e, b' ', e, b'\t' + e, self.ws(first not in b'<([/')])
        if isinstance(v, St):
            raw = raw_of(v)
            d = dict(v.entries)
            d['/Length'] = length_ref if length_ref else len(raw)
            out += self.spell(d) + (e if self.plain else self.r.choice([e, e, b' ', b'', self.ws(False)])) + b'stream' + (b'\r\n' if e == b'\r\n' or e == b'\r' else b'\n')
            out += raw + e + b'endstream' + e
        else:
            out += self.spell(v) + e
        return out + b'endobj'


class Built:
    def __init__(self):
        self.data = b''
        self.secs = []      # dicts: pos, kind, entries, startxref, objs {num: offset}, end
        self.regions = []   # (start, end, kind)


def build(sections, seed=0, eol=b'\n', version='1.4', plain=False, head=b'%\xe2\xe3\xcf\xd3', tail=b'',
          xs_filter=None, wide=False, self_entry=True, gaps=True, lead=b'', comments=True, known=None):
    w = Writer(seed, eol, plain, comments)
    B = Built()
    out = bytearray(lead)

    def emit(b, kind):
        s = len(out)
        out.extend(b)
        B.regions.append((s, len(out), kind))
        return s

    def gap():
        if not gaps or plain:
            return eol
        g = w.r.random()
        if g < .7:
            return eol
        if g < .85:
            return eol + eol
        if not comments:
            return eol + b' ' + eol
        return eol + b'% gap 9 0 obj (' + eol

    def table(entries, trailer):
        t = b'xref' + (eol if plain else w.r.choice([eol, eol, b' ' + eol]))
        nums = sorted(entries)
        i = 0
        while i < len(nums):
            if not plain and w.r.random() < .04:    # empty subsection
                t += f'{nums[i]} 0'.encode() + eol
            j = i
            while j + 1 < len(nums) and nums[j + 1] == nums[j] + 1 and (plain or not gaps or w.r.random() < .8):
                j += 1
            t += f'{nums[i]} {j - i + 1}'.encode() + (eol if plain else w.r.choice([eol, eol, b' ' + eol]))
            for k in nums[i:j + 1]:
                y, a, b = entries[k]
                t += f'{a:010d} {b:05d} {y}'.encode() + (b' ' + eol if len(eol) == 1 else eol)
            i = j + 1
        return t + b'trailer' + (eol if plain else w.r.choice([eol, eol, b' ', b'', w.ws(False)])) + w.spell(trailer) + eol

    def xstream(n, entries, trailer):
        """Object bytes of a cross-reference stream."""
        nums, idx = sorted(entries), []
        for k in nums:
            if not plain and w.r.random() < .04:    # empty subsection
                idx += [k, 0, k, 1]
            elif idx and idx[-2] + idx[-1] == k:
                idx[-1] += 1
            else:
                idx += [k, 1]
        ws = [1, 4 if wide else 3, 2]
        if not wide and max(entries[k][1] for k in nums) < 65536:
            ws[1] = 2
        r = 1 if plain else w.r.random()
        if r < .35 and all(entries[k][0] == 'n' for k in nums):    # default type
            ws[0] = 0
        if (r < .2 or .5 < r < .7) and all(entries[k][2] == 0 for k in nums):    # default third field
            ws[2] = 0
        elif r > .9 and all(entries[k][2] < 256 for k in nums):
            ws[2] = 1
        d = b''
        for k in nums:
            y, a, b = entries[k]
            d += {'f': 0, 'n': 1, 'e': 2}[y].to_bytes(max(ws[0], 1), 'big')[:ws[0]] + a.to_bytes(ws[1], 'big') + b.to_bytes(ws[2], 'big')
        e = {'/Type': '/XRef', '/W': ws, **trailer}
        if not (idx == [0, trailer['/Size']] and w.r.random() < .5):
            e['/Index'] = idx
        if xs_filter == 'pred':
            e['/Filter'], e['/DecodeParms'] = '/FlateDecode', {'/Predictor': 12, '/Columns': sum(ws)}
        elif xs_filter:
            e['/Filter'] = xs_filter
        return w.obj(n, 0, St(e, d)) + eol

    emit(f'%PDF-{version}'.encode() + eol + (head + eol if head else b''), 'header')
    size, prev = 1, None

    def wrong(s, info, part, E, other=None):
        """Apply the faults of a section to the entries of its table (part 0) or hidden stream (part 1)."""
        for p, n, e in s.get('faults', ()):
            if p != part or (other is not None and n in other):
                continue
            if e is None:
                E.pop(n, None)
            elif e[0] == 'n':
                src = info if e[1] == info['si'] else known[e[1]] if known else {'objs': {}}
                if e[1] == info['si'] and e[2] not in info['objs'] and known:
                    src = known[e[1]]
                E[n] = ('n', src['objs'].get(e[2], 0), e[3])
            elif e[0] == 'x':
                E[n] = ('n', 3 if n % 2 else info['objs'].get(1, 5) + 2, e[3])
            else:
                E[n] = e
        return E
    for s in sections:
        xs = [s['xs']] if s.get('xs') else []
        size = max([size] + [n + 1 for n in list(s['objs']) + list(s.get('free', {})) + xs
                             + [m for l in s.get('emb', {}).values() for m, _ in l] + list(s.get('emb', {}))])
    maxsize = size
    size = 1
    for si, s in enumerate(sections):
        objs, emb, free = dict(s['objs']), s.get('emb', {}), s.get('free', {})
        xs = s.get('xs')
        info = {'kind': s['kind'], 'objs': {}, 'si': si}
        size = max([size] + [n + 1 for n in list(objs) + list(free) + ([xs] if xs else [])
                             + [m for l in emb.values() for m, _ in l] + list(emb)])
        entries, hidden = {}, {}
        for n, (nx, g) in free.items():
            entries[n] = ('f', nx, g)
        for stm, members in emb.items():
            heads, body = b'', b''
            for i, (m, v) in enumerate(members):
                if body:
                    body += w.r.choice([b' ', eol])
                heads += f'{m} {len(body)} '.encode()
                body += w.spell(v)
            heads = heads.rstrip() + eol
            e = {'/Type': '/ObjStm', '/N': len(members), '/First': len(heads)}
            if w.r.random() < .5:
                e['/Filter'] = '/FlateDecode'
            objs[stm] = (0, St(e, heads + body))
            for i, (m, _) in enumerate(members):
                (hidden if s['kind'] == 'H' else entries)[m] = ('e', stm, i)
            if s['kind'] == 'H':
                hidden[stm] = None
        order = list(objs)
        if not plain:
            w.r.shuffle(order)
        hide = set(s.get('hide', ())) | set(emb if s['kind'] == 'H' else ())
        trailer = {'/Size': size, **s['trailer']}

        def put(ns):
            for n in ns:
                g, v = objs[n]
                lr = s.get('lengths', {}).get(n)
                pos = emit(w.obj(n, g, v, lr) , 'obj')
                info['objs'][n] = pos
                emit(gap(), 'gap')
                (hidden if n in hide else entries)[n] = ('n', pos, g)
        if s.get('lin'):
            lin = s['lin']          # number of the linearization dictionary object
            first = [n for n in order if n != lin and n in s['first']]
            rest = [n for n in order if n != lin and n not in s['first']]
            # the first-page section comes first in the file and refers to the main section at its end
            d = {'/Linearized': 1, '/L': 0, '/H': [0, 0], '/O': first[0] if first else 0, '/E': 0, '/N': 1, '/T': 0}
            emit(w.obj(lin, 0, d) + eol, 'obj')
            info['objs'][lin] = B.regions[-1][0]
            fpos = len(out)
            # room for the first-page section: written again once positions are known
            mark, rmark = len(out), len(B.regions)
            state = w.r.getstate()
            main = 0
            fe0, me0 = {}, {}
            for attempt in range(6):
                del out[mark:]
                del B.regions[rmark:]
                w.r.setstate(state)
                fe = {lin: ('n', info['objs'][lin], 0), **{n: ('n', info['objs'].get(n, 0), objs[n][0]) for n in first}}
                tr = {**trailer, '/Prev': main}
                if s['kind'] == 'S':
                    fe[xs] = ('n', fpos, 0)
                    info['objs'][xs] = fpos
                firsts = set(fe)
                for p, n, e in s.get('faults', ()):
                    if n in firsts:
                        wrong({'faults': [(p, n, e)]}, info, 0, fe)
                if s['kind'] == 'S':
                    emit(xstream(xs, fe, tr), 'xstream')
                else:
                    emit(table(fe, tr), 'xtable')
                emit(b'startxref' + eol + b'0' + eol + b'%%EOF' + eol, 'startxref')
                for n in first + rest:
                    g, v = objs[n]
                    info['objs'][n] = emit(w.obj(n, g, v) + eol, 'obj')
                me = {0: ('f', 0, 65535), **{n: e for n, e in entries.items()},
                      **{n: ('n', info['objs'][n], objs[n][0]) for n in rest}}
                main2 = len(out)
                mtr = {'/Size': trailer['/Size']} if s['kind'] == 'T' else dict(trailer)
                if s['kind'] == 'S':
                    me[s['xs2']] = ('n', main2, 0)
                    info['objs'][s['xs2']] = main2
                wrong(s, info, 0, me, firsts)
                if s['kind'] == 'S':
                    emit(xstream(s['xs2'], me, mtr), 'xstream')
                else:
                    emit(table(me, mtr), 'xtable')
                emit(b'startxref' + eol + str(fpos).encode() + eol + b'%%EOF' + eol, 'startxref')
                if main2 == main and (fe, me) == (fe0, me0):
                    break
                main, fe0, me0 = main2, fe, me
            else:
                raise RuntimeError('linearized layout does not settle')
            info['startxref'], info['entries'], info['pos'] = fpos, {**me, **fe}, fpos
            info['parts'] = [(fpos, fe), (main, me)]
            prev = fpos
        else:
            put(order)
            if prev is not None:
                trailer['/Prev'] = prev
            if si == 0 and 0 not in entries or s.get('zero'):
                nx = min(free) if free else 0
                entries[0] = ('f', nx, 65535)
            if s['kind'] == 'T' or s['kind'] == 'H':
                if s['kind'] == 'H':
                    hpos = len(out)
                    hidden[xs] = ('n', hpos, 0)
                    info['objs'][xs] = hpos
                    wrong(s, info, 1, hidden)
                    htr = dict(trailer)
                    if not plain and w.r.random() < .5:    # only the table needs it
                        htr.pop('/Prev', None)
                    emit(xstream(xs, {k: v for k, v in hidden.items() if v}, htr), 'xstream')
                    trailer['/XRefStm'] = hpos
                    info['objs'][xs] = hpos
                    info['hidden'] = hidden
                    if not entries:
                        entries[0] = ('f', 0, 65535)
                    for k in s.get('cover', ()):       # hidden objects marked free in the table
                        entries[k] = ('f', 0, 65535)
                pos = len(out)
                wrong(s, info, 0, entries)
                if not entries:
                    entries[0] = ('f', 0, 65535)
                emit(table(entries, trailer), 'xtable')
            else:
                pos = len(out)
                if self_entry or not entries:
                    entries[xs] = ('n', pos, 0)
                info['objs'][xs] = pos
                wrong(s, info, 0, entries)
                emit(xstream(xs, entries, trailer), 'xstream')
            info['parts'] = ([(hpos, {k: v for k, v in hidden.items() if v})] if s['kind'] == 'H' else []) + [(pos, entries)]
            info['startxref'], info['entries'], info['pos'], prev = pos, entries, pos, pos
            emit(b'startxref' + eol + str(pos).encode() + eol + b'%%EOF', 'startxref')
            if not (si == len(sections) - 1 and s.get('no_last_eol')):
                emit(eol, 'gap')
        info['end'] = len(out)
        B.secs.append(info)
    if tail:
        emit(tail, 'tail')
    B.data = bytes(out)
    return B
