"""C09, C10, C11, C12: files generated from XrefFile.tla / Access.tla, read by pdfsyntax (see DESIGN.md)."""
import contextlib, io, json, os, random, tempfile, zlib
import docmodel, pdfgen, vlib
from docmodel import CAT, BLANK, val as tagged
from pdfval import St, canon
from vlib import SEED, THOROUGH, pmap, MachineryError
import pdfsyntax as P
from pdfsyntax import cli, filestruct, docstruct
from pdfsyntax.objects import Stream

ALLFIRST, ALLKINDS = {'T', 'S', 'H', 'LT', 'LS'}, {'T', 'S', 'H'}
INVS = ['LookupIsTruth', 'SoundIsClean', 'FaultVisible', 'Emit']


def canonref(r):
    return ('r', int(r.imag)) if r.imag else None


PLAIN = [0, [], {}, False, b'()', '/', 0.0, True, b'<>', -1]


def val(oid, v, r, R, stream_ok=True):
    """As in docmodel, or a plain value without references (empty ones may be taken for missing ones)."""
    h = zlib.crc32(b'%d %d' % (oid, v))
    if oid > 4 and h % 6 == 0:
        return PLAIN[h // 6 % len(PLAIN)]
    return tagged(oid, v, r, R, stream_ok)


def value_of(n, c, rec=None):
    """Planned value of object n for its cell (generations of references are chosen by the caller)."""
    direct = rec is None or rec['secs'][c[1] - 1]['place'][n - 1] != 'e'
    return val(n, c[1], c[2], lambda o: complex(0, o), direct)


def sections_of(rec):
    """Sections for pdfgen from a view of XrefFile."""
    top, mx = 4 + rec['n'], rec['max']
    stm, xs = (lambda j: top + 2 * j - 1), (lambda j: top + 2 * j)
    lin, xs2 = top + 2 * mx + 1, top + 2 * mx + 2
    cur = {}
    out = []
    for j, s in enumerate(rec['secs'], 1):
        k = s['kind']
        objs, emb, free = {}, [], {}
        for n, (c, g) in enumerate(zip(s['cell'], s['gen']), 1):
            if c[0]:
                cur[n] = g
        for n, (c, p, g) in enumerate(zip(s['cell'], s['place'], s['gen']), 1):
            if c[0] == 2:
                free[n] = (0, g)
            elif c[0] == 1:
                v = val(n, c[1], c[2], lambda o: complex(cur.get(o, 0), o), p != 'e')
                if p == 'e':
                    emb.append((n, v))
                else:
                    objs[n] = (g, v)
        for a, b in zip(sorted(free), sorted(free)[1:] + [0]):
            free[a] = (b, free[a][1])
        d = {'kind': {'LT': 'T', 'LS': 'S'}.get(k, k), 'objs': objs, 'free': free, 'emb': {stm(j): emb} if emb else {},
             'trailer': {'/Root': complex(0, CAT)}}
        if k in ('S', 'H', 'LS'):
            d['xs'] = xs(j)
        if k in ('LT', 'LS'):
            d['lin'], d['first'] = lin, {n for n in objs if n in (1, 3) or n > 5}
            if k == 'LS':
                d['xs2'] = xs2
        if free:
            d['zero'] = True
        if s['cover']:
            d['cover'] = [n for n, _ in emb]
        planned = {(0, n): None for n in range(0)}
        fl = []
        for f in rec['faults']:
            if f[0] != j:
                continue
            n, how = f[1], f[2]
            for part, key in ((0, 'tab'), (1, 'hid')):
                now = {m: e for m, e in rec[key][j - 1]}
                was = n in original(rec, j, key)
                e = now.get(n)
                if e is None and was:
                    fl.append((part, n, None))
                elif e is not None and (how != 'drop'):
                    fl.append((part, n, {'n': lambda: ('n', e[1] - 1, e[2], e[3]), 'x': lambda: ('x', 0, 0, e[3]),
                                         'e': lambda: ('e', e[1], e[2]), 'f': lambda: ('f', 0, e[3])}[e[0]]()))
        d['faults'] = fl
        out.append(d)
    return out


def original(rec, j, key):
    """Object numbers indexed by a section before the faults."""
    s = rec['secs'][j - 1]
    top, mx = 4 + rec['n'], rec['max']
    emb = {n for n, p in enumerate(s['place'], 1) if p == 'e'}
    r = {n for n, c in enumerate(s['cell'], 1) if c[0]} - emb
    h = set(emb) | ({top + 2 * j - 1} if emb else set())
    if s['kind'] in ('S', 'H', 'LS'):
        h.add(top + 2 * j)
    if s['kind'] in ('LT', 'LS'):
        h.add(top + 2 * mx + 1)
    if s['kind'] == 'LS':
        h.add(top + 2 * mx + 2)
    if s['kind'] == 'H':
        return h if key == 'hid' else r | (emb if s['cover'] else set())
    return r | h if key == 'tab' else set()


STYLES = [dict(eol=b'\n'), dict(eol=b'\r\n', xs_filter='/FlateDecode'), dict(eol=b'\r', xs_filter='pred'),
          dict(eol=b'\n', wide=True, xs_filter='/ASCIIHexDecode', tail=b'\r\n'),
          dict(eol=b'\n', xs_filter='pred', version='1.7', tail=b'\ntrailing\n'), dict(eol=b'\n', plain=True)]


def build(rec, seed, **kw):
    k = {**STYLES[seed % len(STYLES)], **kw}
    if (rec['faults'] or rec['secs'][0]['kind'] == 'LS') and k.get('xs_filter') in ('/FlateDecode', 'pred'):
        k['xs_filter'] = '/ASCIIHexDecode'      # a length that does not depend on the offsets
    secs, b = sections_of(rec), None
    for _ in range(8):      # until the wrong entries hold the final positions
        b2 = pdfgen.build(secs, seed=seed, known=b.secs if b else None, **k)
        if not rec['faults'] or b and b2.data == b.data:
            return b2
        b = b2
    raise MachineryError('layout does not settle')


def short(rec):
    return {'secs': [{'kind': s['kind'], 'cell': s['cell'], 'place': s['place'], 'cover': s['cover']} for s in rec['secs']],
            'faults': rec['faults']}


def wanted(rec, rev):
    return {n: canon(value_of(n, c, rec), canonref) for n, c in enumerate(rev, 1) if c[0] == 1}


def gens_at(rec, j):
    g = {}
    for s in rec['secs'][:j]:
        for n, c in enumerate(s['cell'], 1):
            if c[0] == 1:
                g[n] = s['gen'][n - 1]
            elif c[0] == 2:
                g.pop(n, None)
    return g


def see(doc, top):
    """Live objects of a document, those of the file structure excepted."""
    live, gens = {}, {}
    used = P.in_use(doc)
    nums = {int(r.imag) for r in used}
    for r in used:
        v = doc.get_object(r)
        if v is None or r.imag > top:
            continue
        gens[int(r.imag)] = int(r.real)
        live[int(r.imag)] = canon(v, lambda x: ('r', int(x.imag)) if int(x.imag) in nums else None)
    return live, gens


def run09(case):
    rec, seed = case
    b = build(rec, seed)
    res = []
    for mode in ('SINGLE', 'CONTINUOUS') if seed % 3 == 0 else ('SINGLE',):
        doc = P.load(io.BytesIO(b.data), mode)
        ns = len(rec['secs'])
        if docstruct.updates(doc) != ns:
            res.append(('revisions', docstruct.updates(doc), ns))
        kinds = [s['kind'] for s in rec['secs']]
        s = P.structure(doc)
        if s['Revisions'] != ns or bool(s['Hybrid']) != ('H' in kinds) or bool(s['Linearized']) != (kinds[0] in ('LT', 'LS')):
            res.append(('indications', {k: s[k] for k in ('Revisions', 'Hybrid', 'Linearized')}, kinds))
        d = doc
        for k in range(ns, 0, -1):
            d = docstruct.rewind(d) if k < ns or seed % 2 else d
            if k < ns:
                pass
            live, gens = see(d, 4 + rec['n'])
            want = wanted(rec, rec['truth'][k - 1])
            if live != want:
                bad = sorted(n for n in set(live) | set(want) if live.get(n) != want.get(n))
                res.append(('revision %d' % k, {n: live.get(n) for n in bad[:3]}, {n: want.get(n) for n in bad[:3]}))
                break
            if gens != gens_at(rec, k):
                res.append(('generations', gens, gens_at(rec, k)))
                break
            for n in range(1, 5 + rec['n']):
                if n not in want:
                    v = d.get_object(complex(0, n))
                    if v is not None and v != 'null':
                        res.append(('freed object', n, repr(v)))
            # the objects of each revision, listed in the revision of the newest document
            if d is not doc:
                nums = {int(r.imag) for r in docstruct.in_use(doc, k - 1)}
                if not set(want) <= nums or (set(range(1, 5 + rec['n'])) - set(want)) & nums:
                    res.append(('in use in revision', sorted(nums), sorted(want)))
            if k == ns and d is doc and seed % 2 == 0:
                d = docstruct.rewind(d)
    return res


def judge(c, fun, cases, name, limit=30):
    out = pmap(fun, cases, limit=limit)
    n = 0
    for case, r in zip(cases, out):
        n += 1
        if isinstance(r, dict):
            c.violation(name + ':' + r['kind'], {'file': short(case[0]), 'seed': case[1], 'crash': r.get('crash')})
        elif r:
            c.violation(f'{name}:{r[0][0]}', {'file': short(case[0]), 'seed': case[1], 'mismatch': r[:2]})
    c.add(traces_validated_against_impl=n)
    if cases:
        c.sample(short(cases[len(cases) // 2][0]))


def plans(c, faults=0, invs=INVS, **kw):
    k = dict(N=2, MinSecs=1, MaxSecs=2, First=ALLFIRST, Kinds=ALLKINDS, MaxFaults=faults, Picky=True)
    sim = kw.pop('simulate', None)
    k.update(kw)
    k['Sim'] = bool(sim)
    r = c.tlc('XrefFile', k, invariants=invs, simulate=sim)
    seen, out = set(), []
    for v in r.values:
        s = json.dumps(v, sort_keys=True)
        if s not in seen:
            seen.add(s)
            out.append(v)
    if not out:
        raise MachineryError('no plan')
    return sorted(out, key=lambda v: json.dumps(v, sort_keys=True))


def sound(c):
    """Plans of files without faults: every small one, and random larger ones."""
    a = plans(c, N=2, MinSecs=1, MaxSecs=2)
    a += plans(c, N=1, MinSecs=3, MaxSecs=3)
    n = 3000 if THOROUGH else 600
    a += plans(c, N=4, MinSecs=3, MaxSecs=4, simulate=(n, 7), Picky=False)
    if THOROUGH:
        a += plans(c, N=2, MinSecs=3, MaxSecs=3)
    return a


def c09(c):
    a = sound(c)
    judge(c, run09, [(v, SEED * 7919 + i) for i, v in enumerate(a)], 'C09')
    c.assumptions += ['generations of references are not distinguished', 'object streams are not redefined']


# ---------------------------------------------------------------- C11

def expected_map(rec, b):
    """Objects and entries of the file with their places, as the writer put them."""
    top = 4 + rec['n']
    objs = []
    for j, n, g in rec['dirs']:
        objs.append(['d', n, g, b.secs[j - 1]['objs'][n], 0])
    for s, i, n in rec['embs']:
        objs.append(['e', n, 0, s, i])
    entries = []
    for info in b.secs:
        for pos, part in info['parts']:
            for n, (y, p, q) in part.items():
                entries.append([pos, n, y] + ([p, q] if y != 'e' else [p, q]))
    return sorted(objs), sorted(entries)


def observed_map(data, fmap):
    regs, objs, entries = [], [], []
    last = 0
    for s, e, t, content in fmap:
        if t in ('VOID', 'COMMENT', 'STARTXREF', 'XREFTABLE') or (t == 'IND_OBJ' and not isinstance(e, tuple)):
            regs.append([s, e, t])
            last = s
        if t == 'IND_OBJ':
            if isinstance(e, tuple):
                objs.append(['e', content['o_num'], 0, content['env_num'], e[2]])
            else:
                objs.append(['d', content['o_num'], content['o_gen'], s, 0])
        elif t == 'XREFTABLE':
            for x in content['table']:
                if len(x) > 2:
                    _, off, n, g, st = x[3]
                    entries.append([s, n, st.decode(), off, g])
        elif t == 'XREFSTREAM':
            for x in content['table']:
                _, off, n, g, st, env, _ = x[3]
                entries.append([last, n, 'e', env, off] if env is not None else [last, n, st.decode(), off, g])
    return regs, sorted(objs), sorted(entries)


def run11(case):
    rec, seed = case
    b = build(rec, seed, tail=[b'', b'\n', b'%tail', b' \r\n', b'%x\n%y'][seed % 5])
    fd, path = tempfile.mkstemp(prefix='verif_m_', suffix='.pdf')
    try:
        with os.fdopen(fd, 'wb') as h:
            h.write(b.data)
        fmap = filestruct.file_object_map(filestruct.bdata_provider(b.data))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            dmap = cli.dump_disasm(path)
    finally:
        os.unlink(path)
    eo, ee = expected_map(rec, b)
    out = []
    for m in (fmap, dmap):
        regs, objs, entries = observed_map(b.data, m)
        out.append({'size': len(b.data), 'regs': regs, 'objs': objs, 'entries': entries, 'wobjs': eo, 'wentries': ee,
                    'wregs': sorted([s, s + len(b.data[s:e].rstrip()), 'xtable' if k == 'xtable' else 'obj']
                                    for s, e, k in b.regions if k in ('obj', 'xtable', 'xstream') and e > s)})
    # the printed map: one line per region, object and entry with the right offsets
    lines = [l.split() for l in buf.getvalue().split('\n') if l.strip()]
    pl = sorted(int(l[1]) for l in lines if l[0] == '+')
    pr = sorted(r[0] for r in out[1]['regs'])
    no = sum(1 for l in lines if 'ind_obj' in l)
    nx = sum(1 for l in lines if 'xref' in l)
    ok = pl == pr and no == len(eo) and nx == len(ee)
    return {'maps': out, 'printed': ok, 'lines': [] if ok else buf.getvalue()[:800]}


def c11(c):
    a = sound(c)
    cases = [(v, SEED * 104729 + i) for i, v in enumerate(a)]
    recs, names = [], []
    for case, r in zip(cases, pmap(run11, cases)):
        if 'crash' in r:
            c.violation('C11:' + r['kind'], {'file': short(case[0]), 'seed': case[1], 'crash': r['crash']})
            continue
        if not r['printed']:
            c.violation('C11:printed', {'file': short(case[0]), 'seed': case[1], 'lines': r['lines']})
        for m in r['maps']:
            recs.append({'id': len(names), **m})
            names.append(case)
    bad = {}
    step = 1500
    for i in range(0, len(recs), step):
        t = '\n'.join(json.dumps(r) for r in recs[i:i + step]) + '\n'
        r = c.tlc('FileMap', {'File': 'maps.ndjson'}, files={'maps.ndjson': t}, workers=1)
        got = [v for v in r.values if isinstance(v, dict) and 'checked' in v]
        if sum(v['checked'] for v in got) != len(recs[i:i + step]):
            raise MachineryError('FileMap did not read every record')
        for v in r.values:
            if 'id' in v:
                bad[v['id']] = v['failed']
    for i, f in sorted(bad.items()):
        rec, seed = names[i]
        c.violation(f'C11:{sorted(f)[0]}', {'file': short(rec), 'seed': seed, 'clauses': f,
                                            'record': {k: recs[i][k] for k in ('size', 'regs', 'objs', 'wobjs')}})
    c.add(traces_validated_against_impl=len(recs))
    c.sample(recs[0])


# ---------------------------------------------------------------- C12

def run12(case):
    rec, seed = case
    b = build(rec, seed)
    d = b.data
    top = 4 + rec['n']
    fd, path = tempfile.mkstemp(prefix='verif_i_', suffix='.pdf')
    try:
        with os.fdopen(fd, 'wb') as h:
            h.write(d)
        fdata = filestruct.bdata_provider(d)
        fmap = filestruct.file_object_map(fdata)
        seq, _, _ = filestruct.build_xref_sequence(fdata)
        flagged = filestruct.check_index_targets(fmap, seq)
        unidx = filestruct.check_not_indexed_objects(fmap, seq)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            cli.dump_disasm(path)
    finally:
        os.unlink(path)
    # expected: actual entries of the flagged ones, by position of their structure
    bad = {(j, n) for j, n, e in rec['flagged']}
    bade = {(j, n): e[0] for j, n, e in rec['flagged']}
    want, marks = {}, []
    for j, info in enumerate(b.secs, 1):
        tabs = dict((n, e) for n, e in rec['tab'][j - 1])
        for pos, part in info['parts']:
            want[pos] = []
            for n, (y, p, q) in part.items():
                k = ('EMB', n, p, q) if y == 'e' else ('DIR', n, q, p)
                wrong = y != 'f' and (j, n) in bad
                if wrong:
                    want[pos].append(k)
                if y == 'e':
                    marks.append((f'{n},0', f'{p},', q, 'inuse', '-?' if wrong else '-@'))
                else:
                    marks.append((f'{n},{q}', '', p, 'free' if y == 'f' else 'inuse', '-?' if wrong else '-@'))
    res = []
    got = {k: sorted(v) for k, v in flagged.items()}
    if got != {k: sorted(v) for k, v in want.items()}:
        res.append(('flagged entries', got, want))
    wun = sorted([('DIR', n, g, b.secs[j - 1]['objs'][n]) for j, n, g in rec['udir']]
                 + [('EMB', n, s, i) for s, i, n in rec['uemb']])
    if sorted(unidx) != wun:
        res.append(('objects not indexed', sorted(unidx), wun))
    objmarks = []
    for j, n, g in rec['dirs']:
        objmarks.append((f'{n},{g}', b.secs[j - 1]['objs'][n], '?-' if [j, n, g] in rec['udir'] else '@-'))
    for s, i, n in rec['embs']:
        objmarks.append((f'{n},', (f'{s},', i), '?-' if [s, i, n] in rec['uemb'] else '@-'))
    gm, go = [], []
    for l in buf.getvalue().split('\n'):
        t = l.split()
        if 'xref' in t and t[0] == '-':
            m = t[t.index('xref') - 1]
            u = t[t.index('xref') + 1:]
            mode = u[1] if u[1].endswith(',') else ''
            u = [u[0]] + [x for x in u[1:] if x != 'abs' and not x.endswith(',')]
            gm.append((u[0], mode, int(u[1]), u[2], m))
        elif 'ind_obj' in t:
            k = t.index('ind_obj')
            if t[0] == '+':
                go.append((t[k + 1], int(t[1]), t[k - 1]))
            else:
                go.append((t[k + 1], (t[k - 2], None), t[k - 1]) if t[k - 2].endswith(',') else
                          (t[k + 1], (t[k - 2], None), t[k - 1]))
    if sorted(gm) != sorted(marks):
        x, y = set(gm), set(marks)
        res.append(('marks of entries', sorted(x - y), sorted(y - x)))
    want_o = sorted((a, repr(p) if isinstance(p, int) else p[0], m) for a, p, m in objmarks)
    got_o = sorted((a, repr(p) if isinstance(p, int) else p[0], m) for a, p, m in go)
    if got_o != want_o:
        x, y = set(got_o), set(want_o)
        res.append(('marks of objects', sorted(x - y), sorted(y - x)))
    return res


def c12(c):
    a = plans(c, N=1, MinSecs=1, MaxSecs=2, faults=1)
    b = plans(c, N=2, MinSecs=2, MaxSecs=2, faults=1)
    r = random.Random(SEED)
    if not THOROUGH and len(b) > 8000:
        b = r.sample(b, 8000)
    d = plans(c, N=3, MinSecs=2, MaxSecs=3, faults=3, simulate=(4000 if THOROUGH else 800, 8))
    e = plans(c, N=2, MinSecs=1, MaxSecs=2)
    cases = [(v, SEED * 31337 + i) for i, v in enumerate(a + b + d + e)]
    judge(c, run12, cases, 'C12')


# ---------------------------------------------------------------- C10

def spoil(v):
    """Alter a value handed out by the library."""
    if isinstance(v, Stream):
        spoil(v.entries)
    elif isinstance(v, dict):
        for k in list(v):
            spoil(v[k])
        v['/Spoilt'] = True
        v.pop('/R', None)
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('/Spoilt')


ACCESS = []


def run10(case):
    tr, mode = case
    rec, b = ACCESS[tr['base'] - 1]
    docs = [P.load(io.BytesIO(b.data), mode)]
    res = []
    for i, s in enumerate(tr['log']):
        d, n = docs[s['h'] - 1], s['n']
        op = s['op']
        if op in ('read', 'mutate'):
            got = d.get_object(complex(0, n)) if (i + n) % 2 or s['x'][0] != 1 else d.obj(n)
            nums = {int(r.imag) for r in P.in_use(d)}
            g = None if got is None else canon(got, lambda x: ('r', int(x.imag)) if int(x.imag) in nums else None)
            if s['x'][0] == 1:
                w = canon(value10(rec, n, s['x']), canonref)
            else:
                w = None
            if g != w:
                res.append((i, op, n, g, w))
                break
            if op == 'mutate':
                spoil(got)
        elif op == 'upd':
            v = val(n, s['x'][1], s['x'][2], lambda o: complex(0, o))
            docs.append(P.update_object(d, n, tolib(v)))
        elif op == 'del':
            docs.append(P.update_object(d, n, None))
        elif op == 'structure':
            P.structure(d), repr(d)
        elif op == 'pages':
            P.pages(d), P.metadata(d), P.flat_page_tree(d)
        elif op == 'squash':
            P.squash(d)
        elif op == 'in_use':
            P.in_use(d), P.changes(d), P.list_streams(d)
        elif op == 'write':
            fd, path = tempfile.mkstemp(prefix='verif_a_', suffix='.pdf')
            os.close(fd)
            try:
                P.writefile(d, path)
            finally:
                os.unlink(path)
        elif op == 'file':
            for r in P.in_use(d):
                if int(r.imag) > 4 + rec['n']:
                    d.get_object(r)
        elif op == 'commit':
            docs.append(P.commit(d))
        elif op == 'add':
            docs.append(P.add_object(d, {'/X': complex(0, 5)})[0])
    return res


def tolib(v):
    if isinstance(v, St):
        return docstruct.forge_stream(dict(v.entries), v.data)[0]
    return v


def value10(rec, n, c):
    if c[1] < 10:
        return value_of(n, c, rec)
    return val(n, c[1], c[2], lambda o: complex(0, o))


def c10(c):
    a = plans(c, N=4, MinSecs=1, MaxSecs=3, simulate=(400, 6), Picky=True)
    a = [v for v in a if len(v['embs']) >= 2]
    r = random.Random(SEED)
    r.shuffle(a)
    kinds = {}
    for v in a:         # a variety of kinds of sections
        kinds.setdefault(tuple(s['kind'] for s in v['secs']), []).append(v)
    pick = []
    while len(pick) < 24 and any(kinds.values()):
        for k in sorted(kinds):
            if kinds[k] and len(pick) < 24:
                pick.append(kinds[k].pop())
    bases = []
    for i, v in enumerate(pick):
        b = build(v, SEED * 13 + i)
        ACCESS.append((v, b))
        rev = v['truth'][-1]
        raw = []
        for n, x in enumerate(rev, 1):
            raw.append(list(x) if x[0] == 1 else [0, 0, 0])
        # the cell with its own reference (dead references are resolved when read)
        raw = [[q[0], q[1], abs(q[2])] for q in raw]
        stm = []
        for n, x in enumerate(rev, 1):
            stm.append(4 + v['n'] + 2 * x[1] - 1 if x[0] == 1 and v['secs'][x[1] - 1]['place'][n - 1] == 'e' else 0)
        bases.append({'rev': raw, 'stm': stm})
    inv = ['CacheIsCurrent', 'GivenIsCurrent', 'Emit']
    small = [bases[i] for i in range(0, len(bases), 4)]
    t = c.tlc('Access', {'Bases': bases, 'Depth': 12, 'Sim': True}, invariants=inv,
              simulate=(6000 if THOROUGH else 1500, 14)).values
    t2 = c.tlc('Access', {'Bases': bases[:2], 'Depth': 3, 'Sim': False}, invariants=inv).values
    if not t or not t2:
        raise MachineryError('no behaviour')
    cases = [(x, ('SINGLE', 'CONTINUOUS')[i % 2]) for i, x in enumerate(t + t2)]
    out = pmap(run10, cases)
    for (x, m), q in zip(cases, out):
        f = short(ACCESS[x['base'] - 1][0])
        if isinstance(q, dict):
            c.violation('C10:' + q['kind'], {'file': f, 'log': x['log'], 'mode': m, 'crash': q['crash']})
        elif q:
            c.violation('C10:value', {'file': f, 'log': x['log'], 'mode': m, 'mismatch': q[0]})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(t[0])
