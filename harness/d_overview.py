"""C28: states of Overview.tla replayed; the structure overview must agree at every step (see DESIGN.md)."""
import contextlib, io, os, re, tempfile
import pdfgen
from pdfval import St, canon
from vlib import SEED, THOROUGH, pmap, MachineryError
import pdfsyntax as P
from pdfsyntax import cli, docstruct

BOXES = [[0, 0, 595, 842], [0, 0, 612, 792], [10, 20, 605, 862], [0, 0, 300.5, 200], [0, 0, 842, 595], [-100, -50, 320, 545]]
NAMES = {(595, 842): 'A4', (612, 792): 'US Letter', (420, 595): 'A5'}
VER = lambda v: f'{v // 10}.{v % 10}'


def make(i, header, revs, kinds, enc=False):
    """A file whose revisions have the given <<catalog version, boxes>>; pages sit under two nodes, boxes are own, inherited or indirect."""
    secs = []
    n0 = 40
    allp = revs[0][1]
    for j, ((cv, boxes), k) in enumerate(zip(revs, kinds)):
        objs = {}
        cat = {'/Type': '/Catalog', '/Pages': 2j}
        if cv:
            cat['/Version'] = '/' + VER(cv)
        objs[1] = (0, cat)
        kids = []
        n = len(boxes)
        pg = {}
        for q, bx in enumerate(boxes):
            num = 10 + q
            d = {'/Type': '/Page', '/Parent': 2j, '/Resources': {}, '/T': b'(p%d)' % q}
            if q % 3 == 0:
                d['/MediaBox'] = BOXES[bx]
            elif q % 3 == 1:
                d['/MediaBox'] = complex(0, 30 + bx)
            else:
                pg[20 + q] = (0, {'/Type': '/Pages', '/Parent': 2j, '/Kids': [complex(0, num)], '/Count': 1,
                                  '/MediaBox': BOXES[bx]})
                d['/Parent'] = complex(0, 20 + q)
            kids.append(complex(0, 20 + q if q % 3 == 2 else num))
            pg[num] = (0, d)
        objs[2] = (0, {'/Type': '/Pages', '/Kids': kids, '/Count': n})
        objs.update(pg)
        if j == 0:
            for b, x in enumerate(BOXES):
                objs[30 + b] = (0, x)
            objs[36] = (0, {'/Filter': '/Standard', '/V': 1})
        if k == 'H' or k == 'S':
            emb = [(n0 + j, {'/X': j})]
        s = {'kind': {'LT': 'T', 'LS': 'S'}.get(k, k), 'objs': objs, 'free': {}, 'emb': {50 + j: emb} if k in 'HS' else {},
             'trailer': {'/Root': 1j}}
        if enc:
            s['trailer']['/Encrypt'] = 36j
        if k in ('S', 'H', 'LS'):
            s['xs'] = 60 + j
        if k in ('LT', 'LS'):
            s['lin'], s['first'] = 70, {1, 10}
            if k == 'LS':
                s['xs2'] = 71
        secs.append(s)
    return pdfgen.build(secs, seed=SEED * 100 + i, version=VER(header), eol=[b'\n', b'\r\n'][i % 2])


SPECS = [(14, [(0, [0])], 'T', False), (17, [(0, [1, 0])], 'S', False), (14, [(17, [2, 1, 3]), (20, [2, 1])], 'T S', False),
         (15, [(14, [3, 0]), (14, [3, 0]), (16, [0, 3])], 'H T H', False), (13, [(0, [4, 1])], 'LT', False),
         (16, [(0, [5, 4, 0]), (0, [5])], 'LS T', False), (14, [(14, [1, 2])], 'T', True), (20, [(17, [0, 5])], 'T', False),
         (14, [(0, [2, 2]), (15, [4, 2, 2, 1])], 'T H', True), (12, [(0, [1, 0, 5, 4])], 'T', False)]
BASES = []


def bases():
    if not BASES:
        for i, (h, r, k, e) in enumerate(SPECS):
            k = k.split()
            BASES.append((make(i, h, r, k, e).data,
                          {'header': h, 'revs': [[cv, bx] for cv, bx in r], 'lin': k[0] in ('LT', 'LS'), 'enc': e,
                           'hybrid': {j for j, x in enumerate(k, 1) if x == 'H'}}))
    return BASES


def contents(d, version=True):
    res = {}
    for r in P.in_use(d):
        v = d.get_object(r)
        e = getattr(v, 'entries', v)
        if isinstance(e, dict) and e.get('/Type') in ('/ObjStm', '/XRef'):
            continue
        res[int(r.imag)] = canon(v, drop=() if version else ('/Version',) if isinstance(v, dict) and v.get('/Type') == '/Catalog' else ())
    return res


def problems(doc, see):
    s = P.structure(doc)
    bad = []
    if s['Version'] != VER(see['version']):
        bad.append(('Version', s['Version'], VER(see['version'])))
    if s['Pages'] != see['pages'] or docstruct.number_pages(doc) != see['pages'] or len(doc) != see['pages']:
        bad.append(('Pages', s['Pages'], see['pages']))
    if s['Revisions'] != see['closed']:
        bad.append(('Revisions', s['Revisions'], see['closed']))
    if bool(s['Encrypted']) != see['enc']:
        bad.append(('Encrypted', s['Encrypted'], see['enc']))
    for k, a in (('Hybrid', 'hyb'), ('Linearized', 'lin')):
        if see[a] != 'any' and bool(s[k]) != (see[a] == 'yes'):
            bad.append((k, s[k], see[a]))
    b = BOXES[see['box']]
    w, h = b[2] - b[0], b[3] - b[1]
    mm = re.match(r'(\d+)x(\d+)mm or ([\d.]+)x([\d.]+)in \((.*)\)$', s['Paper of 1st page'])
    if not mm or abs(float(mm[1]) - w * 25.4 / 72) > 1 or abs(float(mm[2]) - h * 25.4 / 72) > 1 \
            or abs(float(mm[3]) - w / 72) > .0051 or abs(float(mm[4]) - h / 72) > .0051 or mm[5] != NAMES.get((w, h), 'unknown'):
        bad.append(('Paper of 1st page', s['Paper of 1st page'], [w, h]))
    return bad


def saved(doc):
    fd, path = tempfile.mkstemp(prefix='verif_o_', suffix='.pdf')
    os.close(fd)
    try:
        P.writefile(doc, path)
        with open(path, 'rb') as f:
            data = f.read()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            cli.overview(path)
        return data, out.getvalue()
    finally:
        os.unlink(path)


def run(tr):
    data, _ = BASES[tr['base'] - 1]
    doc = P.loads(data)
    res = []
    for i, s in enumerate(tr['log']):
        op, v = s['op'], s['v']
        if op == 'upgrade':
            before = contents(doc, False)
            doc = docstruct.update_version(doc, VER(v))
            if contents(doc, False) != before:
                res.append((i, 'upgrading changes something else'))
        elif op == 'remove':
            doc = P.remove_pages(doc, v - 1)
        elif op == 'rotate':
            doc = P.rotate(doc, 90, [0])
        elif op == 'add':
            doc, _ = P.add_object(doc, {'/Y': i})
        elif op == 'commit':
            doc = P.commit(doc)
        elif op == 'rewind':
            doc = P.rewind(doc)
        elif op == 'squash':
            doc = P.squash(doc)
        elif op == 'compress':
            doc = P.compress(doc)
        elif op == 'reload':
            d, out = saved(doc)
            doc = P.loads(d)
            want = P.structure(doc)
            lines = dict(l.split(': ', 1) for l in out.split('# Metadata')[0].split('\n') if ': ' in l)
            if lines != {k: str(x) for k, x in want.items()}:
                res.append((i, 'printed overview', lines, want))
        bad = problems(doc, s['see'])
        if bad:
            res.append((i, op, bad))
        if res:
            break
    return res


def c28(c):
    bs = [b for _, b in bases()]
    inv = ['NeverLowered', 'CompressedIsRecent', 'Emit']
    k = {'Bases': bs, 'Versions': {12, 14, 15, 17, 20}, 'Depth': 2, 'Sim': False}
    a = c.tlc('Overview', k, invariants=inv).values
    b = c.tlc('Overview', {**k, 'Depth': 9, 'Sim': True}, invariants=inv, simulate=(6000 if THOROUGH else 1500, 11)).values
    if THOROUGH:
        a += c.tlc('Overview', {**k, 'Depth': 3}, invariants=inv).values
    cases = a + b
    if not a or not b:
        raise MachineryError('no behaviour')
    for x, q in zip(cases, pmap(run, cases)):
        what = {'base': SPECS[x['base'] - 1], 'ops': [(s['op'], s['v']) for s in x['log']]}
        if isinstance(q, dict):
            c.violation('C28:' + q['kind'], {**what, 'crash': q['crash']})
        elif q:
            c.violation('C28:' + str(q[0][1]), {**what, 'mismatch': q[0]})
    c.add(traces_validated_against_impl=len(cases))
    c.sample(cases[-1])
