"""C25, C29: behaviours of Windows.tla replayed into the data providers and the dump (see DESIGN.md)."""
import io, os, random, re, tempfile
from vlib import SEED, THOROUGH, pmap, MachineryError
import pdfsyntax as P
from pdfsyntax import docstruct, filestruct
from d_content import command
import d_xreffile


def base(kind, data):
    if kind == 'bytes':
        return filestruct.bdata_provider(data), None
    if kind == 'dummy':
        return filestruct.bdata_dummy(data), None
    if kind == 'once':
        return filestruct.bdata_provider(io.BytesIO(data)), None
    if kind == 'demand':
        return filestruct.bdata_provider(io.BytesIO(data), 'CONTINUOUS'), None
    f = tempfile.TemporaryFile()
    f.write(data)
    f.seek(0)
    return filestruct.bdata_provider(f, 'CONTINUOUS' if kind == 'demand file' else 'SINGLE'), f


KINDS = ['bytes', 'dummy', 'once', 'demand', 'file', 'demand file']
LINE = re.compile(r'(\d+) +((?:[0-9a-fA-F]{2} )*[0-9a-fA-F]{2})? *\|(.*)\|', re.S)


def dumped(text):
    """{offset: (byte, character)} of a dump, or a problem."""
    got = {}
    rest = text
    for l in text.splitlines():
        m = LINE.fullmatch(l)
        if not m:
            return f'line {l!r}'
        o, h, t = int(m[1]), bytes.fromhex(m[2] or ''), m[3]
        if len(h) != len(t):
            return f'{len(h)} bytes and {len(t)} characters in {l!r}'
        for k, x in enumerate(h):
            if o + k in got:
                return f'offset {o + k} twice'
            if got and o + k < max(got):
                return f'offset {o + k} not in order'
            got[o + k] = (x, t[k])
    return got


def dump_problem(text, want, data, a, b):
    got = dumped(text)
    if isinstance(got, str):
        return got
    for o, x in want:
        if o not in got:
            return f'offset {o} is missing'
    for o, (x, t) in got.items():
        if o >= len(data) or data[o] != x:
            return f'offset {o} shows {x:02x}'
        if t != (chr(x) if 32 <= x <= 126 else '.'):
            return f'offset {o}: {x:02x} shown as {t!r}'
        if not a <= o < b and (o < a - 16 or o >= b + 16):
            return f'offset {o} is far out of {a}..{b}'


def run(case):
    i, tr, kinds = case
    r = random.Random(SEED * 41 + i)
    pal = r.choice([bytes(range(256)), b'\x1f\x20~\x7f', b'|\\', b'ab\n\r\0', b'\xff0\x80'])
    seen = {}

    def val(n):
        if n not in seen:
            seen[n] = r.choice(pal) if len(pal) < 256 or r.random() < .5 else n % 256
        return seen[n]
    first = bytes(val(n) for n in range(1, tr['len'] + 1))
    for kind in kinds:
        f, h = base(kind, first)
        provs, datas, nxt = [f], [first], tr['len'] + 1
        try:
            for k, s in enumerate(tr['log']):
                if s['op'] == 'extend':
                    more = bytes(val(n) for n in range(nxt, nxt + s['b']))
                    nxt += s['b']
                    provs.append(docstruct.merge_fdata(provs[-1], s['a'], more))
                    datas.append(datas[-1][:s['a']] + more)
                elif s['op'] == 'drop':
                    provs.pop()
                    datas.pop()
                elif s['op'] == 'read':
                    want = bytes(val(n) for n in s['bytes'])
                    b, j, o, n = provs[-1](s['a'], s['b'])
                    if n != len(want) or bytes(b[j:j + n]) != want:
                        return [kind, k, f'read: {bytes(b[j:j + max(n, 0)])!r} ({n}) instead of {want!r}']
                    if want and o + j != s['from']:
                        return [kind, k, f'offset: {o + j} instead of {s["from"]}']
                else:
                    d = datas[-1]
                    text = filestruct.hexdump(provs[-1], s['a'], s['b'])
                    q = dump_problem(text, s['bytes'], d, s['a'], s['b'])
                    if q:
                        return [kind, k, 'dump: ' + q]
                if provs[-1](None, -1)[3] != s['size'] or filestruct.bdata_length(provs[-1]) != s['size']:
                    return [kind, k, f'length: {provs[-1](None, -1)[3]} instead of {s["size"]}']
            if i % 8 == 0 and any(s['op'] == 'dump' for s in tr['log']):
                d = datas[-1]
                want = [(o, x) for o, x in enumerate(d)]
                for text in (filestruct.hexdump(provs[-1]), command('hexdump', d)):
                    q = dump_problem(text.rstrip('\n'), want, d, 0, len(d))
                    if q:
                        return [kind, len(tr['log']), 'whole dump: ' + q]
        finally:
            if h:
                h.close()


def behaviours(c, ops, small, big):
    inv = ['Composite', 'Exact', 'EachOnce', 'Emit']
    a = c.tlc('Windows', {**small, 'Ops': ops, 'Sim': False}, invariants=inv).values
    b = []
    for k, n in big:
        b += c.tlc('Windows', {**k, 'Ops': ops, 'Sim': True}, invariants=inv, simulate=(n * (4 if THOROUGH else 1), 40)).values
    if not a or not b:
        raise MachineryError('no behaviour')
    return a, b


def replay(c, pid, a, b):
    r = random.Random(SEED)
    cases = [(i, x, KINDS if i % 12 == 0 else [KINDS[i % 6], KINDS[(i // 6) % 6]]) for i, x in enumerate(a + b)]
    for (i, x, _), q in zip(cases, pmap(run, cases)):
        what = {'len': x['len'], 'ops': [(s['op'], s['a'], s['b']) for s in x['log']]}
        if isinstance(q, dict):
            c.violation(f'{pid}:{q["kind"]}', {**what, 'crash': q['crash']})
        elif q:
            c.violation(f'{pid}:{q[2].split(":")[0]}', {**what, 'provider': q[0], 'step': q[1], 'mismatch': q[2]})
    c.add(traces_validated_against_impl=sum(len(x[2]) for x in cases))
    c.sample(cases[-1][1])


def c25(c):
    big = [({'Lens': set(range(0, 64)), 'Adds': {0, 1, 5, 10, 23}, 'MaxParts': 3, 'MaxReads': 6, 'Far': 12}, 600),
           ({'Lens': {9, 10, 11, 100, 257, 300}, 'Adds': {10, 100}, 'MaxParts': 2, 'MaxReads': 4, 'Far': 3}, 200)]
    a, b = behaviours(c, {'dump', 'extend', 'drop'}, {'Lens': set(range(0, 22)), 'Adds': {1}, 'MaxParts': 1, 'MaxReads': 1, 'Far': 2}, big)
    replay(c, 'C25', a, b)


def same_doc(case):
    """A file opened on demand and at once, before and after an update."""
    rec, seed = case
    data = d_xreffile.build(rec, seed).data
    out = []
    for kind in ('bytes', 'once', 'demand', 'demand file'):
        h = None
        if kind == 'bytes':
            d = P.loads(data)
        elif kind == 'demand file':
            h = tempfile.TemporaryFile()
            h.write(data)
            d = P.load(h, 'CONTINUOUS')
        else:
            d = P.load(io.BytesIO(data), 'CONTINUOUS' if kind == 'demand' else 'SINGLE')
        steps = []

        def note(d):
            live = {}
            for ref in P.in_use(d):
                live[repr(ref)] = repr(d.get_object(ref))
            steps.append((live, repr(P.trailer(d)), repr(d), repr(P.structure(d)), sorted(map(repr, P.changes(d)))))
        if seed % 2:
            note(d)
        e = d
        for _ in range(seed % 3):
            e = P.rewind(e)
            note(e)
        e, ref = P.add_object(e, {'/Added': [seed, b'(x)']})
        e = P.commit(e)
        note(e)
        e = P.update_object(e, int(ref.imag), [1j])
        note(e)
        f, p = tempfile.mkstemp(prefix='verif_', suffix='.pdf')
        os.close(f)
        try:
            P.writefile(e, p)
            steps.append(open(p, 'rb').read())
        finally:
            os.remove(p)
        note(d)
        if h:
            h.close()
        out.append((kind, steps))
    for kind, steps in out[1:]:
        for k, (x, y) in enumerate(zip(out[0][1], steps)):
            if x != y:
                return [kind, k, repr(y)[:400], repr(x)[:400]]
        if len(steps) != len(out[0][1]):
            return [kind, -1, 'steps']


def c29(c):
    big = [({'Lens': set(range(0, 12)), 'Adds': {0, 1, 2, 5, 8}, 'MaxParts': 4, 'MaxReads': 8, 'Far': 3}, 1500),
           ({'Lens': {0, 1, 99, 100, 101, 1000}, 'Adds': {1, 50, 300}, 'MaxParts': 3, 'MaxReads': 6, 'Far': 130}, 100)]
    a, b = behaviours(c, {'read', 'extend', 'drop'}, {'Lens': set(range(0, 4)), 'Adds': {0, 1, 2}, 'MaxParts': 2, 'MaxReads': 2, 'Far': 2}, big)
    replay(c, 'C29', a, b)
    recs = d_xreffile.plans(c, N=2, MinSecs=1, MaxSecs=2)
    random.Random(SEED).shuffle(recs)
    recs = recs[:4000 if THOROUGH else 700]
    cases = [(v, SEED * 31 + i) for i, v in enumerate(recs)]
    for (v, s), q in zip(cases, pmap(same_doc, cases)):
        what = {'file': d_xreffile.short(v), 'seed': s}
        if isinstance(q, dict):
            c.violation('C29:' + q['kind'], {**what, 'crash': q['crash']})
        elif q:
            c.violation('C29:document on demand', {**what, 'mismatch': q})
    c.add(traces_validated_against_impl=len(cases))
