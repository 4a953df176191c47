"""C22-C24: behaviours of Content.tla, FontMap.tla and Reading.tla replayed into the library (see DESIGN.md)."""
import random
import pdfgen
from pdfval import St
from vlib import SEED, THOROUGH, pmap, MachineryError, Raw
import pdfsyntax as P
from pdfsyntax import api, docstruct

WIN = {**{c: c for c in range(32, 127)}, **{c: c for c in range(161, 256) if c != 173},
       **dict(zip([128, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 142, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 158, 159],
                  [0x20ac, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x17d, 0x2018, 0x2019, 0x201c,
                   0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x17e, 0x178]))}
_mac = ('ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨?ÆØ?±??¥µ?????ªº?æø¿¡¬?ƒ??«»…?ÀÃÕŒœ–—“”‘’÷?ÿŸ⁄?‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ?ÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ')
MAC = {**{c: c for c in range(32, 127)}, **{128 + i: ord(x) for i, x in enumerate(_mac) if x != '?'}}


def hexa(r, b, up=True):
    h = b.hex()
    h = ''.join(c.upper() if r.random() < .5 else c for c in h)
    if r.random() < .1 and len(h) > 2:
        k = r.randrange(1, len(h))
        h = h[:k] + r.choice([' ', '\n']) + h[k:]
    return '<' + h + '>'


def u16(t):
    return b''.join(chr(c).encode('utf-16-be') for c in t)


def spell(r, b):
    """A string operand."""
    if r.random() < .5:
        return hexa(r, b).encode()
    out = b''
    for k, c in enumerate(b):
        if c in b'()\\\r':
            out += b'\\' + bytes([c]) if c != 13 else b'\\r'
        elif r.random() < .15:
            out += b'\\%03o' % c
        else:
            out += bytes([c])
    return b'(' + out + b')'


def cmap(r, f):
    code = lambda c: hexa(r, c.to_bytes(f['wl'], 'big'))
    out = ''
    if r.random() < .7:
        out += '/CIDInit /ProcSet findresource begin\n12 dict begin begincmap\n/CIDSystemInfo <</Registry (Adobe) /Ordering (UCS)\n/Supplement 0>> def /CMapName /Adobe-Identity-UCS def\n'
    if r.random() < .8:
        full = '<0000> <FFFF>' if f['wl'] == 2 else '<00> <ff>'
        half = '<0000> <00ff>\n<0100><ffff>' if f['wl'] == 2 else '<00> <7F> <80> <ff>'
        out += ('1 begincodespacerange\n' + full if r.random() < .6 else '2 begincodespacerange\n' + half) + '\nendcodespacerange\n'
    for s in f['secs']:
        if not s:
            continue
        k = 'bfchar' if s[0]['t'] == 'c' else 'bfrange'
        out += f'{len(s)} begin{k}' + r.choice(['\n', ' ', '% x\n'])
        for e in s:
            if e['t'] == 'c':
                out += code(e['lo']) + r.choice([' ', '']) + hexa(r, u16(e['tg'][0])) + '\n'
            elif e['t'] == 'r':
                out += code(e['lo']) + ' ' + code(e['hi']) + r.choice([' ', '']) + hexa(r, u16(e['tg'][0])) + r.choice(['\n', ' '])
            else:
                out += code(e['lo']) + code(e['hi']) + '[' + ' '.join(hexa(r, u16(t)) for t in e['tg']) + ']\n'
        out += f'end{k}\n'
    if r.random() < .7:
        out += 'endcmap CMapName currentdict /CMap defineresource pop end end\n'
    return out.encode()


def num(r, x):
    if isinstance(x, float) and x == int(x):
        x = int(x)
    if isinstance(x, int):
        return r.choice(['%d', '%d', '%d', '%d.0', '%d.', '+%d' if x >= 0 else '%d', '%d.000']) % x
    return repr(x)


def document(r, fonts, contents, i):
    """fonts: {name: (dict, {number: object})}; contents: bytes or list of bytes."""
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1})}
    fd = {}
    for j, (name, (d, more)) in enumerate(fonts.items()):
        objs[10 + j] = (0, d)
        objs.update({n: (0, v) for n, v in more.items()})
        fd[name] = complex(0, 10 + j)
    if r.random() < .3:
        objs[5] = (0, fd)
        fd = 5j
    res = {'/Font': fd}
    page = {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 600, 800]}
    if r.random() < .3:
        objs[6] = (0, res)
        res = 6j
    (page if r.random() < .7 else objs[2][1])['/Resources'] = res
    parts = contents if isinstance(contents, list) else [contents]
    refs = []
    for k, b in enumerate(parts):
        e = {}
        if r.random() < .3:
            e['/Filter'] = r.choice(['/FlateDecode', '/ASCIIHexDecode', ['/ASCII85Decode', '/FlateDecode']])
        objs[60 + k] = (0, St(e, b))
        refs.append(complex(0, 60 + k))
    if len(refs) == 1 and r.random() < .6:
        page['/Contents'] = refs[0]
    elif r.random() < .3:
        objs[7] = (0, refs)
        page['/Contents'] = 7j
    else:
        page['/Contents'] = refs
    objs[3] = (0, page)
    s = {'kind': 'TS'[i % 2], 'objs': objs, 'free': {}, 'emb': {}, 'trailer': {'/Root': 1j}}
    if i % 2:
        s['xs'] = 120
    return P.loads(pdfgen.build([s], seed=i, plain=bool(i % 3)).data)


def fragments(doc):
    return api.build_text_fragments(P.get_page_contents(doc, 0), docstruct.get_page_fonts(doc, [0]))


def map_run(case):
    i, f = case
    r = random.Random(SEED * 17 + i)
    more = {}
    w = f['wid']
    if f['kind'] == 'simple':
        d = {'/Type': '/Font', '/Subtype': r.choice(['/Type1', '/TrueType']), '/BaseFont': '/X', '/FirstChar': w['first'],
             '/LastChar': w['first'] + len(w['ws']) - 1, '/Widths': list(w['ws'])}
        if r.random() < .3:
            more[31], d['/Widths'] = d['/Widths'], 31j
        if r.random() < .2:
            more[32], d['/FirstChar'] = d['/FirstChar'], 32j
    else:
        es = []
        for e in w['es']:
            es += [e['lo'], list(e['ws'])] if e['t'] == 'l' else [e['lo'], e['hi'], e['ws'][0]]
        de = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/X'}
        if w['dw'] != 1000 or r.random() < .5:
            de['/DW'] = w['dw']
        if es or r.random() < .3:
            de['/W'] = es
            if r.random() < .3:
                more[33], de['/W'] = es, 33j
        more[34] = de
        d = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/X', '/DescendantFonts': [34j]}
        if r.random() < .3:
            more[35], d['/DescendantFonts'] = [34j], 35j
    if f['kind'] == 'cid':
        d['/Encoding'] = '/Identity-H'
    elif f['enc'] == 'mac':
        d['/Encoding'] = '/MacRomanEncoding'
    elif f['enc'] == 'win':
        d['/Encoding'] = '/WinAnsiEncoding'
    if f['tou']:
        more[36] = St({'/Filter': '/FlateDecode'} if r.random() < .4 else {}, cmap(r, f))
        d['/ToUnicode'] = 36j
    out = b'BT /F1 10 Tf '
    for s in f['shows']:
        b = b''.join(c.to_bytes(f['wl'], 'big') for c in s['codes'])
        k = r.random()
        if k < .6:
            out += spell(r, b) + b' Tj '
        else:
            z = f['wl'] * r.randint(0, len(s['codes']))
            out += b'[' + spell(r, b[:z]) + r.choice([b'', b' ']) + spell(r, b[z:]) + b'] TJ '
    out += b'ET'
    doc = document(r, {'/F1': (d, more)}, out, i)
    fr = fragments(doc)
    if len(fr) != len(f['shows']):
        return f'{len(fr)} fragments instead of {len(f["shows"])}'
    for s, (a, t, b) in zip(f['shows'], fr):
        want = ''.join(map(chr, s['text']))
        if t != want:
            return f'codes {s["codes"]}: text {t!r} instead of {want!r}'
        if abs((b[4] - a[4]) - s['width'] / 100) > 1e-6:
            return f'codes {s["codes"]}: width {(b[4] - a[4]) * 100} instead of {s["width"]}'


TARGETS = {(65,), (102, 105), (0x1f600,), (0x4e2d, 0xe9), (0x20,), (), (0xfb01,)}


def c23(c):
    k = {'Codes1': {0, 65, 66, 254}, 'Codes2': {1, 65, 256, 65533}, 'Targets': {(97,), (102, 105), (0x1f600,)}, 'Widths': {250, 500},
         'MaxSecs': 1, 'MaxEntries': 1, 'MaxShow': 0, 'Sim': False,
         'Win': [WIN.get(i, 0) for i in range(256)], 'Mac': [MAC.get(i, 0) for i in range(256)]}
    inv = ['OneMapping', 'Additive', 'Silent', 'Emit']
    a = c.tlc('FontMap', k, invariants=inv).values
    e = c.tlc('FontMap', {**k, 'Codes1': set(range(32, 256)) | {0}, 'Codes2': {65}, 'MaxSecs': 0, 'Widths': {500}}, invariants=inv).values
    k.update({'Codes1': {0, 1, 2, 31, 32, 64, 65, 70, 97, 127, 128, 200, 250, 255}, 'Codes2': {0, 1, 2, 65, 70, 255, 256, 300, 511, 0x1234, 0x1240, 65530, 65535},
              'Targets': TARGETS, 'MaxSecs': 4, 'Widths': {0, 250, 500, 1000, 333}, 'MaxEntries': 5, 'MaxShow': 5, 'Sim': True})
    b = c.tlc('FontMap', k, invariants=inv, simulate=(6000 if THOROUGH else 800, 30)).values
    if not a or not b or not e:
        raise MachineryError('no fonts')
    cases = list(enumerate(a + e + b))
    for (i, x), q in zip(cases, pmap(map_run, cases)):
        if isinstance(q, dict):
            c.violation(f'C23:{q["kind"]}', {'font': x, 'crash': q['crash']})
        elif q:
            c.violation('C23:' + q.split(':')[0].split(' ')[0], {'font': x, 'mismatch': q})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(b[-1])


# ---- C22 ----

CODES = {1: {32: 250, 65: 500, 66: 250, 67: 750, 40: 1000, 92: 500}, 2: {32: 500, 65: 1000, 66: 250, 67: 0, 40: 500, 92: 1500}}
NOISE_OUT = [b'0 0 10.5 -10 re f', b'1 w', b'/GS0 gs', b'1 0 0 RG', b'10 20 m 30 40 l S', b'[3 2] 0 d', b'/Im0 Do', b'0 0 5 5 re W n',
             b'% a ] comment (\n', b'/Span BMC', b'/Span << /MCID 0 /X (]) >> BDC', b'EMC', b'0.1 0.2 0.3 0.4 k', b'/DeviceRGB cs', b'1 2 3 4 5 6 c', b'h B*']
NOISE_IN = [b'1 0 0 rg', b'0 Tr', b'/Span BMC', b'EMC', b'/P <</MCID 1>> BDC', b'% BT (x\n', b'0.5 G', b'/GS0 gs', b'3 w']


def program(r, prog):
    """Bytes of the operators, as a list of tokens."""
    toks = []
    intext = False
    for o in prog:
        if r.random() < .15:
            toks.append(r.choice(NOISE_IN if intext else NOISE_OUT))
        op, a = o['op'], o['a']
        intext = op == 'BT' or intext and op != 'ET'
        st = lambda font, s: spell(r, b''.join(c.to_bytes(font, 'big') for c in s))
        if op == 'Tf':
            toks += [b'/F%d' % a[0], num(r, a[1]).encode()]
            font = a[0]
            o['font'] = font
        elif op in ('Tj', "'"):
            toks.append(('s', a[0]))
        elif op == '"':
            toks += [num(r, a[0]).encode(), num(r, a[1]).encode(), ('s', a[2])]
        elif op == 'TJ':
            toks.append(('a', a))
        else:
            toks += [num(r, x).encode() for x in a]
        toks.append(op.encode())
    return toks


def join(r, toks):
    """Tokens to streams."""
    parts, out = [], b''
    for t in toks:
        if out:
            need = not (out[-1:] in b'()<>[]' or t[:1] in b'(<[/')
            out += r.choice([b' ', b'\n', b' ', b'\r\n', b'  ']) if need or r.random() < .7 else b''
        out += t
        if out.endswith(b'\n') or r.random() < .06:
            if r.random() < .5:
                parts.append(out)
                out = b''
    return parts + [out] if len(parts) else out


def content_run(case):
    i, b = case
    r = random.Random(SEED * 31 + i)
    toks, k, font, saved = [], 0, 0, []
    for t in program(r, b['prog']):
        toks.append(t)
    res = []
    for t in toks:
        if isinstance(t, tuple):
            f = b['shows'][k]['font']
            k += 1
            enc = lambda s: b''.join(c.to_bytes(f, 'big') for c in s)
            if t[0] == 's':
                res.append(spell(r, enc(t[1])))
            else:
                res.append(b'[' + r.choice([b' ', b'', b'\n']).join(spell(r, enc(x['s'])) if 's' in x else b' ' + num(r, x['k']).encode() + b' ' for x in t[1]) + b']')
        else:
            res.append(t)
    w1 = [500] * 32 + [CODES[1].get(c, 250) for c in range(32, 256)]
    f1 = {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/X', '/Encoding': '/WinAnsiEncoding', '/FirstChar': 0, '/LastChar': 255, '/Widths': w1}
    f2 = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Y', '/Encoding': '/Identity-H', '/DescendantFonts': [40j], '/ToUnicode': 41j}
    d = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Y', '/DW': 250, '/W': sum([[c, [w]] for c, w in CODES[2].items()], [])}
    cm = b'1 beginbfrange <0000> <00ff> <0000> endbfrange'
    doc = document(r, {'/F1': (f1, {}), '/F2': (f2, {40: d, 41: St({}, cm)})}, join(r, res), i)
    fr = fragments(doc)
    if len(fr) != len(b['shows']):
        return f'{len(fr)} shown strings instead of {len(b["shows"])}'
    for j, (s, (a, t, z)) in enumerate(zip(b['shows'], fr)):
        want = ''.join(map(chr, s['codes'])).replace(' ', '')
        if t.replace(' ', '') != want:
            return f'string {j}: text {t!r} instead of {want!r}'
        for n, g, m in (('start', a, s['start']), ('end', z, s['end'])):
            if max(abs(x - y) for x, y in zip(g, m)) > 1e-6:
                return f'string {j}: {n} {g} instead of {m}'


def c22(c):
    k = {'Mats': {(1, 0, 0, 1, 40, 700), (2, 0, 0, 2, -5, 3), (1, 0, 0, -1, 0, 800), (0, 1, -1, 0, 10, 20), (1, 0, 1, 1, 0, 0), (1, 0, 0, 3, 7, -7), (-1, 0, 0, 1, 100, 0)},
         'Offs': {(0, -14), (30, 0), (-7, 12), (0, 0), (100, -20)}, 'Sizes': {8, 16, 32}, 'Scales': {50, 100, 200}, 'Leads': {0, 12, -9}, 'Rises': {0, 5, -3}, 'Spacings': {0, 2, -4}, 'OneByte': {1},
         'Fonts': {1, 2}, 'Codes': {32, 65, 66, 67, 40, 92}, 'Adjust': {-1000, 250, -250, 500, 0}, 'MaxOps': 40, 'MaxShows': 5, 'MaxDepth': 4, 'MaxText': 4,
         'Sim': True, 'Ready': False, 'WidthOf': Raw('[f \\in {1, 2} |-> [c \\in {32, 65, 66, 67, 40, 92} |-> ' + ' '.join(
             ('CASE ' if n == 0 else '[] ') + f'f = {f} /\\ c = {x} -> {w}' for n, (f, x, w) in enumerate((f, x, w) for f in CODES for x, w in CODES[f].items())) + ']]')}
    inv = ['CtmIsProduct', 'ParamsAreLast', 'Straight', 'LineMatrix', 'Emit']
    a = c.tlc('Content', {**k, 'Mats': {(2, 0, 0, 3, 5, 7)}, 'Offs': {(3, -14)}, 'Sizes': {16}, 'Scales': {50}, 'Leads': {9}, 'Rises': {4}, 'Spacings': {2}, 'Fonts': {1},
                          'Codes': {65}, 'Adjust': {-250}, 'MaxOps': 7 if THOROUGH else 6, 'MaxShows': 2, 'MaxText': 1, 'Sim': False, 'Ready': True}, invariants=inv).values
    b = c.tlc('Content', k, invariants=inv, simulate=(8000 if THOROUGH else 1500, 60)).values
    if not a or not b:
        raise MachineryError('no programs')
    cases = list(enumerate(a + b))
    for (i, x), q in zip(cases, pmap(content_run, cases)):
        if isinstance(q, dict):
            c.violation(f'C22:{q["kind"]}', {'program': x, 'crash': q['crash']})
        elif q:
            c.violation('C22:' + q.split(':')[0], {'program': x, 'mismatch': q})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(b[-1])


# ---- C24 ----

FRAMES = [(None, 1), ((2, 0, 0, 2, 0, 0), 2), ((.1, 0, 0, .1, 3, 5), .1), ((1, 0, 0, -1, 0, 800), 'flip'), ((1, 0, 0, 1, -20, 33.5), 1)]


def reading_text(k, n):
    a = chr(65 + k % 26)
    return a if n == 1 else a + chr(97 + k % 26) * (n - 2) + ('1' if k < 26 else '2')


def reading_page(r, b, kind, i):
    """Operators that place the strings of behaviour b. kind: mono, prop, turn."""
    x0, y0 = r.choice([(72, 700), (50.25, 640.5), (0, 0), (-1, 300), (100.3, 500.7), (7, -1), (-12, -40)])
    frame, f = r.choice(FRAMES)
    out, line, last, lead, intext, size = [], None, None, None, False, None

    def place(x, y):
        """Coordinates in the frame."""
        if frame:
            x, y = (x - frame[4]) / frame[0], (y - frame[5]) / frame[3]
        return x, y
    n = lambda v: (b'%d' % v if v == int(v) else repr(round(v, 5)).encode())
    sc = 1 if f == 'flip' else f
    cell = 6
    if frame:
        out.append(b'q ' + b' '.join(n(v) for v in frame) + b' cm')
    local = kind == 'turn' or f == 'flip' or r.random() < .15
    for k, s in enumerate(b['placed']):
        t = reading_text(k, s['n'])
        up = 3 if s['up'] else 0
        x, y = x0 + s['col'] * cell, y0 + s['y'] + up
        z = s['size'] / sc
        op = spell(r, t.encode('cp1252')) + b' Tj'
        if local:
            if kind == 'turn':
                x, y = 500 - (y0 + s['y']), x
                m = (0, s['size'], -s['size'], 0)
            else:
                m = (s['size'] / sc, 0, 0, -s['size'] if f == 'flip' else s['size'] / sc)
            px, py = place(x, y)
            if kind == 'turn' and frame:
                m = (m[0] / frame[0], m[1] / frame[3], m[2] / frame[0], m[3] / frame[3])
            out.append((b'' if intext else b'BT ') + b'/F1 1 Tf ' + b' '.join(n(v) for v in (*m, px, py)) + b' Tm ' + op)
            intext, size = True, None
            if r.random() < .4:
                out.append(b'ET')
                intext = False
            continue
        px, py = place(x, y)
        w = r.random()
        if w < .3 and not intext:
            out.append(b'q 1 0 0 1 ' + n(px) + b' ' + n(py) + b' cm BT /F1 ' + n(z) + b' Tf ' + op + b' ET Q')
            continue
        if not intext:
            out.append(b'BT')
            intext, line, last = True, (0, 0), None
        if size != z:
            out.append(b'/F1 ' + n(z) + b' Tf')
            size = z
        by = py - up / sc
        if last and not up and last == (s['row'], s['col']) and kind == 'mono':
            out.append(op)
        elif w < .5:
            out.append(b'1 0 0 1 ' + n(px) + b' ' + n(py) + b' Tm ' + op)
            line = (px, py)
        elif w < .6:
            out.append(n(up / sc) + b' Ts ' + n(px - line[0]) + b' ' + n(by - line[1]) + b' Td ' + op + b' 0 Ts')
            line = (px, by)
        elif w < .7 and line[0] == px:
            out.append(n(line[1] - py) + b' TL ' + r.choice([b'T* ' + op, op[:-2] + b"'"]))
            line = (px, py)
        else:
            out.append(n(px - line[0]) + b' ' + n(py - line[1]) + b' ' + r.choice([b'Td ', b'TD ']) + op)
            line = (px, py)
        last = (s['row'], s['col'] + s['w']) if not up else None
        if r.random() < .08:
            out.append(r.choice([b'() Tj', b'[] TJ', b'[()] TJ']))
        if r.random() < .25:
            out.append(b'ET')
            intext = False
            if r.random() < .3:
                out.append(b'BT 1 0 0 1 5 5 Tm ET 0 0 10 10 re f')
    if intext:
        out.append(b'ET')
    if frame:
        out.append(b'Q')
    return b'\n'.join(out)


def reading_compare(b, text, kind):
    words = [reading_text(k, s['n']) for k, s in enumerate(b['placed'])]
    if kind == 'turn':
        missing = [w for w in words if text.count(w) < 1]
        return f'missing: {missing}' if missing else None
    got = [l for l in text.split('\n') if l.strip()]
    if len(got) != len(b['lines']):
        return f'lines: {got} instead of {[[words[k - 1] for k, _ in l] for l in b["lines"]]}'
    exact = kind == 'mono' and all(s['size'] == 10 and not s['up'] for s in b['placed'])
    # The width of characters is known from strings of at least two characters or from single ones.
    for g, l in zip(got, b['lines']):
        rest = g
        for j, (k, gap) in enumerate(l):
            w = words[k - 1]
            z = len(rest) - len(rest.lstrip(' '))
            rest = rest[z:]
            if not rest.startswith(w):
                return f'order: {g!r} instead of {[words[x - 1] for x, _ in l]}'
            rest = rest[len(w):]
            if exact and abs(z - gap) > 1:
                return f'spaces: {z} before {w} instead of {gap} in {g!r}'
            if j and gap >= (1 if kind == 'mono' else 2) and z == 0:
                return f'joined: {w} in {g!r}'
            if j and gap == 0 and z and kind == 'mono':
                return f'split: {w} in {g!r}'
        if rest.strip():
            return f'more: {g!r}'


def reading_run(case):
    i, group = case
    r = random.Random(SEED * 37 + i)
    fonts = {}
    w = [600] * 256
    kinds = [r.choice(['mono'] * 8 + ['prop'] * 3 + ['turn']) for _ in group]
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}),
            2: (0, {'/Type': '/Pages', '/Kids': [complex(0, 10 + 3 * k) for k in range(len(group))], '/Count': len(group), '/MediaBox': [0, 0, 600, 800]}),
            3: (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Courier', '/Encoding': '/WinAnsiEncoding', '/FirstChar': 0, '/LastChar': 255, '/Widths': w}),
            4: (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding', '/FirstChar': 0, '/LastChar': 255,
                    '/Widths': [300 + 37 * c % 300 for c in range(256)]})}
    for k, (b, kind) in enumerate(zip(group, kinds)):
        n = 10 + 3 * k
        objs[n] = (0, {'/Type': '/Page', '/Parent': 2j, '/Resources': {'/Font': {'/F1': 4j if kind == 'prop' else 3j}}, '/Contents': complex(0, n + 1)})
        objs[n + 1] = (0, St({'/Filter': '/FlateDecode'} if r.random() < .3 else {}, reading_page(r, b, kind, i)))
    data = pdfgen.build([{'kind': 'T', 'objs': objs, 'free': {}, 'emb': {}, 'trailer': {'/Root': 1j}}], seed=i, plain=True).data
    doc = P.loads(data)
    texts = []
    for k, (b, kind) in enumerate(zip(group, kinds)):
        t = api.extract_page_text(doc, k)
        texts.append(t)
        q = reading_compare(b, t, kind)
        if q:
            return [k, kind, q]
    if len(group) > 1:
        out = command('text', data)
        if out != ''.join(t + '\n' for t in texts):
            return [0, 'command', 'the text command prints another text']


def command(cmd, data, *args, name='x.pdf'):
    """What a command prints for a file."""
    import contextlib, io, os, shutil, sys, tempfile
    from pdfsyntax import cli
    d = tempfile.mkdtemp(prefix='verif_')
    p = os.path.join(d, name)
    try:
        with open(p, 'wb') as h:
            h.write(data)
        o, a = io.StringIO(), sys.argv
        sys.argv = ['pdfsyntax', cmd, p, *args]
        try:
            with contextlib.redirect_stdout(o):
                cli.main()
        finally:
            sys.argv = a
        return o.getvalue()
    finally:
        shutil.rmtree(d)


def c24(c):
    inv = ['InOrder', 'GapIsDistance', 'Whole', 'Emit']
    a = c.tlc('Reading', {'Rows': 2, 'Cols': 4, 'Widths': {1, 2}, 'Sizes': {10}, 'Gaps': {12}, 'MaxStrings': 3, 'Ups': {False}, 'Sim': False}, invariants=inv).values
    a += c.tlc('Reading', {'Rows': 2, 'Cols': 4, 'Widths': {1, 2}, 'Sizes': {5, 10, 20}, 'Gaps': {14, 20}, 'MaxStrings': 2, 'Ups': {True, False}, 'Sim': False}, invariants=inv).values
    n = 3 if THOROUGH else 1
    k = {'Rows': 8, 'Cols': 60, 'Widths': {1, 2, 3, 4, 8, 10}, 'Sizes': {10}, 'Gaps': {10, 12, 14, 25, 40}, 'MaxStrings': 14, 'Ups': {False}, 'Sim': True}
    b = c.tlc('Reading', k, invariants=inv, simulate=(n * 400, 200)).values
    b += c.tlc('Reading', {**k, 'Sizes': {5, 10, 20}, 'Ups': {True, False}}, invariants=inv, simulate=(n * 400, 200)).values
    b += c.tlc('Reading', {**k, 'Rows': 12, 'Cols': 30, 'Widths': {1, 2, 4}, 'MaxStrings': 26}, invariants=inv, simulate=(n * 300, 300)).values
    b += c.tlc('Reading', {**k, 'Rows': 5, 'Cols': 20, 'Widths': {1}, 'MaxStrings': 8}, invariants=inv, simulate=(n * 100, 100)).values
    if not a or not b:
        raise MachineryError('no pages')
    r = random.Random(SEED)
    r.shuffle(b)
    groups = [[x] for x in a]
    while b:
        m = r.choice([1, 1, 1, 2, 3])
        groups.append(b[:m])
        b = b[m:]
    cases = list(enumerate(groups))
    for (i, x), q in zip(cases, pmap(reading_run, cases)):
        if isinstance(q, dict):
            c.violation(f'C24:{q["kind"]}', {'pages': x, 'crash': q['crash']})
        elif q:
            c.violation(f'C24:{q[2].split(":")[0]}', {'page': x[q[0]], 'kind': q[1], 'mismatch': q[2]})
    c.add(traces_validated_against_impl=sum(len(x) for x in groups))
    c.sample(groups[-1])
