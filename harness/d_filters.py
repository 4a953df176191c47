"""C15: encodings of Filters.tla decoded by the library, and its own encodings decoded by the specification (see DESIGN.md)."""
import json, random, zlib
import pdfscan
from vlib import SEED, THOROUGH, MachineryError, pmap
from pdfsyntax import objects as O, filters as F

B = lambda s: list(s if isinstance(s, bytes) else s.encode('latin-1'))
NAME = {'AHx': '/ASCIIHexDecode', 'A85': '/ASCII85Decode', 'Fl': '/FlateDecode'}
MARK = b'#PDFSyntaxException'
SMALL = ['', 'a', '\x00', 'ab', '\xff\x00\x80', '\x00\x00\x00\x00', '\xff\xff\xff\xff', 'abcde', '\x00' * 9, '>', '~>', 'a\n']
rnd = random.Random(11)
LARGE = ['', 'x', '\n', 'hello world', '\x00' * 8, '\xff' * 12, '\x00\x00\x00\x00\x01', bytes(range(256)), b'~>~>', b'>>>>', b'endstream\n',
         b' \t\r\n\0\f', b'\r', b'\n\n', b'<~abc~>', b'zzzz', b'\x00\x00\x00\x00' * 3] + [bytes(rnd.randrange(256) for _ in range(n))
         for n in (3, 5, 6, 7, 10, 12, 14, 15, 20, 21, 24, 28, 30, 35, 36, 40, 42, 48, 60)]


def parms(p, r):
    if not p:
        return r.choice([None, {}, 'null'])
    d = {'/Predictor': p[0], '/Colors': p[1], '/BitsPerComponent': p[2], '/Columns': p[3]}
    if p[1] == 1 and r.random() < .7:
        del d['/Colors']
    if p[2] == 8 and r.random() < .7:
        del d['/BitsPerComponent']
    if p[3] == 1 and r.random() < .7:
        del d['/Columns']
    return d


def entries(chain, r):
    """A stream dictionary with this chain, in one of its possible forms."""
    names = [NAME.get(f, '/' + f) for f, _ in chain]
    ps = [parms(p, r) for _, p in chain]
    e = {}
    if len(names) == 1 and r.random() < .5:
        e['/Filter'] = names[0]
        if isinstance(ps[0], dict) or r.random() < .2:
            e['/DecodeParms'] = ps[0] if ps[0] is not None else 'null'
    elif names or r.random() < .5:
        e['/Filter'] = names
        if any(isinstance(p, dict) for p in ps) or r.random() < .3:
            e['/DecodeParms'] = ['null' if p is None else p for p in ps]
    elif r.random() < .3:
        e['/Filter'] = 'null'
    return e


def run(case):
    x, i = case
    r = random.Random(SEED * 7919 + i)
    data, text, chain = bytes(x['d']), bytes(x['t']), x['c']
    e = entries(chain, r)
    res, recs = [], []

    def expect(what, got):
        if x['bad'] == '':
            if got != data:
                res.append((what, e, text, got, data))
        elif not got.startswith(MARK):
            res.append((what + ' of ' + x['bad'], e, text, got))
    e0 = json.dumps(e)
    expect('decode_stream', F.decode_stream(text, e))
    d = {**e, '/Length': len(text)}
    src = O.serialize({k: v for k, v in d.items()}) + b'\nstream\n' + text + b'\nendstream '
    s = O.parse_obj(src)
    if s.encoded != text:
        res.append(('encoded data changed', src, s.encoded))
    expect('parsed stream', s.stream)
    if x['bad'] == '' and any(p and p[0] > 1 for _, p in chain):      # parameters that are not at hand
        ind = {**e, '/DecodeParms': 7j if isinstance(e['/DecodeParms'], dict) or r.random() < .3 else
               [7j if isinstance(p, dict) else p for p in e['/DecodeParms']]}
        if not F.decode_stream(text, ind).startswith(MARK):
            res.append(('decode_stream with indirect parameters', ind, text, F.decode_stream(text, ind)))
        if not F.encode_stream(data, ind).startswith(MARK) and isinstance(e['/DecodeParms'], dict):
            res.append(('encode_stream with indirect parameters', ind, data, F.encode_stream(data, ind)))
    if json.dumps(e) != e0:
        res.append(('decoding changes the dictionary', e))
    if x['bad'] == '':
        enc = F.encode_stream(data, e)
        if F.decode_stream(enc, e) != data:
            res.append(('encode then decode', e, data, enc))
        st, n = O.forge_stream(dict(e), data)
        if (st.encoded, st.stream, n, st.entries['/Length']) != (enc, data, len(enc), len(enc)):
            res.append(('forge_stream', e, data, st.encoded, enc))
        try:
            plain = lambda v: None if v == 'null' else [plain(q) for q in v] if isinstance(v, list) else v
            ref = pdfscan.decode(enc, {k: plain(v) for k, v in e.items()})
        except Exception as q:
            ref = repr(q)
        if ref != data:
            res.append(('encoded data for another decoder', e, data, enc, ref))
        k = [c for c in chain]
        t = enc
        while k and k[0][0] == 'Fl' and (not k[0][1] or k[0][1][0] == 1):     # zlib is trusted for the outer layers
            t, k = zlib.decompress(t), k[1:]
        if all(f != 'Fl' for f, _ in k):
            recs.append({'id': i, 'c': k, 't': list(t), 'd': x['d']})
    elif x['bad'] == 'unsupported':
        enc = F.encode_stream(data, e)
        if not enc.startswith(MARK) and e.get('/Filter'):
            res.append(('encoding with an unsupported filter', e, data, enc))
    return {'bad': res, 'recs': recs}


def zvariants(i, x):
    """The same chain with really compressed data in the outermost Flate layer."""
    r = random.Random(i)
    t = zlib.decompress(bytes(x['t']))
    c = zlib.compressobj(r.choice([1, 6, 9]), zlib.DEFLATED, r.choice([9, 12, 15]))
    z = c.compress(t) + c.flush()
    return {**x, 't': list(z)}


def c15(c):
    k = {'MaxChain': 3}
    a = c.tlc('Filters', {**k, 'Datas': [B(x) for x in SMALL], 'Rich': False, 'MaxChain': 3 if THOROUGH else 2}, invariants=['Inverse', 'Emit']).values
    b = c.tlc('Filters', {**k, 'Datas': [B(x) for x in LARGE], 'Rich': True}, invariants=['Inverse', 'Emit'],
              simulate=(20000 if THOROUGH else 2500, 5)).values
    if len(a) < 100 or len(b) < 1000 or not {'unsupported', 'damaged', 'tag', 'tiff', ''} <= {x['bad'] for x in b}:
        raise MachineryError('too few encodings')
    all_ = a + b
    all_ += [zvariants(i, x) for i, x in enumerate(all_) if x['bad'] == '' and x['c'] and x['c'][0][0] == 'Fl']
    cases = [(x, i) for i, x in enumerate(all_)]
    recs = []
    for (x, i), q in zip(cases, pmap(run, cases)):
        if 'crash' in q:
            c.violation('C15:' + q['kind'], {'case': x, 'crash': q['crash']})
            continue
        if q['bad']:
            c.violation('C15:' + q['bad'][0][0], {'chain': x['c'], 'damage': x['bad'], 'mismatch': repr(q['bad'][0])})
        recs += q['recs']
    r = c.tlc('FiltersTrace', {**k, 'Datas': [], 'Rich': False, 'File': 'enc.ndjson'}, spec='TSpec', invariants=['Judge'],
              files={'enc.ndjson': '\n'.join(json.dumps(x) for x in recs) + '\n'})
    if sum(x.get('checked', 0) for x in r.values) != len(recs):
        raise MachineryError('FiltersTrace did not read every record')
    for x in r.values:
        if 'id' in x:
            c.violation('C15:decoder of the specification', {'case': cases[x['id']][0], 'read': x['read']})
    c.add(traces_validated_against_impl=len(cases) + len(recs))
    c.sample(b[len(b) // 2])
