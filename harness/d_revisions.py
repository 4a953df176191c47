"""C01-C08: replay of Revisions.tla behaviours into pdfsyntax (see DESIGN.md)."""
import contextlib, io, json, os, random, re, tempfile
import vlib
from vlib import SEED, THOROUGH, tlc, pmap
import docmodel, layout, pdfscan
from docmodel import CAT, INFO, Base, expected, project, realize, tag_of, val
from pdfval import St, canon
import pdfsyntax as P
from pdfsyntax.objects import Stream, forge_stream

N0 = (0, 0, 0)


def D(v, r=0):
    return (1, v, r)


FREE = (2, 0, 0)


def bases():
    s1 = [[D(1), D(1), D(1, 6), D(1), D(1, 6), D(1, 5), D(1)]]
    s3 = [[D(1)] * 4 + [D(1, 6), D(1, 5), D(1), D(1, 8), D(1, 3)],
          [N0] * 4 + [FREE, D(2), N0, N0, D(2, 7), D(2, 6)],
          [N0] * 4 + [N0, D(3, 4), N0, FREE, N0, N0, D(3, 9)]]
    sgap = [[D(1), D(1), D(1, 9), D(1), N0, N0, D(1, 9), N0, D(1, 7)], [N0] * 4 + [D(2, 7), N0, N0, N0, N0, N0, D(2, 5)]]
    sempty = [[D(1), D(1), D(1, 5), D(1), D(1, 6), D(1)], [N0], [N0] * 4 + [D(3, 6)]]
    out = []
    blank = Base('blank', None, None)
    out.append(blank)
    for name, secs, styles, kw in [
            ('table', s1, 'T', {}),
            ('xstream', s1, 'S', {'xs_filter': '/FlateDecode'}),
            ('objstm', s1, 'O', {'xs_filter': 'pred', 'version': '1.5'}),
            ('table3', s3, 'T T T', {'tail': b'\n\r\n'}),
            ('objstm3', s3, 'O O O', {'eol': b'\r\n', 'self_entry': False}),
            ('hybrid3', s3, 'H H T', {}),
            ('lintable', s3, 'LT T S', {}),
            ('linstream', s3, 'LS O O', {}),
            ('mixed', s3, 'T S O', {'eol': b'\r', 'tail': b'trailing garbage\n'}),
            ('gap', sgap, 'T T', {'gens': {7: 2, 9: 1}, 'eol': b'\r\n'}),
            ('gapstream', sgap, 'S O', {'gens': {7: 2, 9: 1}}),
            ('empty', sempty, 'T T T', {}),
            ('lin1', s1, 'LT', {'eol': b'\r\n'}),
            ('hybrid1', s1, 'H', {}),
            ('gens', s1, 'T', {'gens': {5: 3, 6: 1, 7: 12}})]:
        out.append(realize(name, secs, styles.split(), seed=len(out), **kw))
    return out


BASES = bases()


def base_consts():
    r = []
    for b in BASES:
        secs = b.secs if b.secs is not None else [[D(0), D(0), D(0)]]
        r.append({'secs': [[list(c) for c in s] for s in secs]})
    return r


def consts(ops, depth, sim, refs):
    return {'Bases': base_consts(), 'Ops': ops, 'Depth': depth, 'Sim': sim, 'Refs': refs}


SPECPROPS = ['TypeOK', 'CommitClosed', 'ChangesExact', 'SquashKeeps', 'SameBytesSameRevisions']
ALLOPS = ['Add', 'Upd', 'Del', 'DelAgain', 'Commit', 'Rewind', 'Squash', 'Compress', 'Reload', 'Write', 'Force', 'Group']


def tolib(v):
    if isinstance(v, St):
        return forge_stream(dict(v.entries), v.data)[0]
    return v


class Handle:
    """A document of the replay: the real one, where objects are, what is expected."""
    def __init__(self, doc, refs, exp, pure=True, exact=True):
        self.doc, self.refs, self.exp, self.exact = doc, refs, exp, exact
        self.n2o = {int(r.imag): o for o, r in refs.items()}
        self.obs = self.bytes = None


def write(doc):
    fd, path = tempfile.mkstemp(prefix='verif_w_', suffix='.pdf')
    os.close(fd)
    try:
        d2 = P.writefile(doc, path)
        with open(path, 'rb') as h:
            return d2, h.read()
    finally:
        os.unlink(path)


def live_objs(doc):
    return {int(r.imag): (int(r.real), doc.get_object(r)) for r in P.in_use(doc)}


def observe(doc, n2o):
    used = P.in_use(doc)
    objs = live_objs(doc)
    prj, refs, problems = project(objs)
    if len(set(used)) != len(used):
        problems.append('in_use has duplicates')
    ch = P.changes(doc)
    chg = []
    for r, a in ch:
        n = int(r.imag)
        o = n2o.get(n)
        if n in objs:
            t = tag_of(objs[n][1])
            o = t[0] if t and t[0] != '?' else None
        if o is not None:
            chg.append((o, a))
    m = re.match(r'<PDF Doc in revision (\d+) with (\d+) modified object\(s\)>$', repr(doc))
    if not m:
        problems.append('repr ' + repr(doc))
    if m and int(m.group(2)) != len(ch):
        problems.append(f'repr counts {m.group(2)} objects, changes {len(ch)}')
    return {'live': prj, 'refs': refs, 'chg': sorted(chg), 'n': int(m.group(1)) + 1 if m else 0, 'problems': problems}


def compare(obs, exp):
    """Mismatches by aspect between an observation and View(doc)."""
    res = []
    want = expected(exp['revs'][-1])
    if set(obs['live']) != set(want):
        res.append(('live', {'got': sorted(obs['live']), 'want': sorted(want)}))
    else:
        for o in want:
            if obs['live'][o] != want[o]:
                res.append(('value', {'object': o, 'got': obs['live'][o], 'want': want[o]}))
                break
    wc = sorted(tuple(x) for x in exp['chgs'][-1])
    if obs['chg'] != wc:
        res.append(('changes', {'got': obs['chg'], 'want': wc}))
    if obs['n'] != len(exp['revs']):
        res.append(('revisions', {'got': obs['n'], 'want': len(exp['revs'])}))
    if obs['problems']:
        res.append(('consistency', obs['problems']))
    return res


def same_read(data, rev, skip=0):
    """None, or how the independent reading of the bytes differs from a revision."""
    tr, objs = pdfscan.read_pdf(data, skip)
    prj, refs, problems = project(objs)
    want = expected(rev)
    if problems:
        return {'problems': problems}
    if prj != want:
        for o in sorted(set(prj) | set(want)):
            if prj.get(o) != want.get(o):
                return {'object': o, 'got': prj.get(o), 'want': want.get(o)}
    if tr.get('/Root') != refs.get(CAT):
        return {'root': repr(tr.get('/Root')), 'want': repr(refs.get(CAT))}
    if INFO in refs and tr.get('/Info') != refs[INFO]:
        return {'info': repr(tr.get('/Info')), 'want': repr(refs[INFO])}
    return None


def spoil(v):
    """Modify a value handed out by the library in place."""
    if hasattr(v, 'entries'):
        v.entries['/Spoiled'] = 1
        for x in v.entries.values():
            spoil(x)
        v.stream = v.encoded = b'spoiled'
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v['/Spoiled'] = True
        v.pop('/Tag', None)
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('/Spoiled')
        if v:
            v[0] = 0


def hand_out(doc):
    """Everything a document hands out, modified."""
    for r in P.in_use(doc):
        spoil(doc.get_object(r))
    spoil(P.trailer(doc))
    spoil(P.catalog(doc)[0])
    spoil(P.in_use(doc))
    spoil(P.changes(doc))
    try:
        spoil(P.pages(doc))
        spoil(P.flat_page_tree(doc))
        spoil(P.info(doc))
    except KeyError:
        pass


CRASH = {'Add': {'C05', 'C01'}, 'Upd': {'C05', 'C01'}, 'Del': {'C05', 'C01'}, 'DelAgain': {'C05', 'C01'}, 'Commit': {'C04', 'C01'},
         'Rewind': {'C04', 'C01'}, 'Squash': {'C06', 'C01'}, 'Compress': {'C07', 'C01'}, 'Write': {'C02', 'C03', 'C08', 'C01'},
         'Reload': {'C03', 'C08'}, 'Force': {'C08', 'C01'}, 'Group': {'C08', 'C01'}, 'observe': {'C05', 'C01', 'C03', 'C04', 'C06', 'C07'},
         'start': {'C03', 'C01', 'C04'}}


class Replay:
    def __init__(self, trace, pid, lazy, tid):
        self.t, self.pid, self.lazy, self.tid = trace, pid, lazy, tid
        self.base = BASES[trace['base'] - 1]
        self.bad, self.layouts, self.nops = [], [], 0
        self.known = {}         # segs prefix -> bytes

    def miss(self, pids, what, detail, step):
        if self.pid in pids:
            self.bad.append({'what': what, 'step': step, 'detail': detail})

    def guard(self, op, step, fun):
        try:
            return fun()
        except vlib.Hang:
            raise
        except pdfscan.ScanError as e:
            self.miss({'C03', 'C08', 'C06', 'C07'}, f'{op}: unreadable bytes', str(e), step)
        except Exception as e:
            import traceback
            self.miss(CRASH[op], f'{op} raised {type(e).__name__}', traceback.format_exc()[-900:], step)
        return None

    def run(self):
        b = self.base
        exp = self.t['start']
        if b.data is None:
            doc = P.blank()
            h = Handle(doc, {1: 1j, 2: 2j, 3: 3j}, exp)
        else:
            doc = self.guard('start', 0, lambda: P.loads(b.data))
            if doc is None:
                return
            ever = {i + 1 for rev in exp['revs'] for i, c in enumerate(rev) if c[0] == 1}
            h = Handle(doc, {o: complex(GENS.get(b.name, {}).get(o, 0), o) for o in ever}, exp)
            for k in range(1, len(b.secs) + 1):
                end = b.built.secs[k - 1]['end']
                self.known[tuple(range(1, k + 1))] = b.data[:end]
        self.hs = [h]
        if not self.lazy:
            self.check_new(h, 'start', 0, {'C04', 'C05', 'C03'})
        if self.pid == 'C01':
            self.snapshot(h, 0)
        for step, e in enumerate(self.t['hist'], 1):
            self.nops += 1
            new = self.guard(e['op'], step, lambda: self.apply(e, step))
            if new is None:
                return
            self.hs.append(new)
            if not self.lazy:
                self.check_new(new, e['op'], step, self.owners(e['op']))
            if self.pid == 'C01':
                self.snapshot(new, step)
                self.persist(step)
        for i, x in enumerate(self.hs):
            if self.lazy:
                op = 'start' if i == 0 else self.t['hist'][i - 1]['op']
                self.check_new(x, op, i, self.owners(op), at_end=True)
        if self.pid in ('C02', 'C03', 'C08'):
            for i, x in enumerate(self.hs):
                self.guard('Write', i, lambda: self.written(x, x.doc, i, check_reload=(i % 3 == 2)))
        elif self.pid in ('C06', 'C07'):
            for i, x in enumerate(self.hs):
                if i and self.t['hist'][i - 1]['op'] in ('Squash', 'Compress'):
                    self.guard(self.t['hist'][i - 1]['op'], i, lambda: self.written(x, x.doc, i, check_reload=True))

    def owners(self, op):
        return {'Commit': {'C04', 'C05'}, 'Rewind': {'C04', 'C05'}, 'Squash': {'C06'}, 'Compress': {'C07'},
                'Reload': {'C03', 'C08'}, 'Write': {'C03', 'C04'}, 'start': {'C03', 'C04', 'C05'}}.get(op, {'C05'})

    def check_new(self, h, op, step, owners, at_end=False):
        def go():
            obs = observe(h.doc, h.n2o)
            for aspect, detail in compare(obs, h.exp):
                who = set(owners)
                if aspect in ('changes', 'revisions', 'consistency') and op not in ('Squash', 'Compress'):
                    who |= {'C05'}
                if aspect == 'value' and op in ('Add', 'Upd', 'Del'):
                    who |= {'C03'}
                if at_end:
                    who |= {'C01'}
                self.miss(who, f'{op}: {aspect}', detail, step)
            return True
        self.guard('observe', step, go)

    def snapshot(self, h, step):
        h.obs = self.guard('observe', step, lambda: observe(h.doc, h.n2o)) if not self.lazy else None
        if step % 2 == 0 or not self.lazy:
            w = self.guard('Write', step, lambda: write(h.doc))
            h.bytes = w[1] if w else None
        if not self.lazy:
            self.guard('observe', step, lambda: hand_out(h.doc))

    def persist(self, step):
        """C01: every earlier document is as it was."""
        for i, h in enumerate(self.hs):
            if h.obs is not None:
                obs = self.guard('observe', step, lambda: observe(h.doc, h.n2o))
                if obs is not None and obs != h.obs:
                    k = [k for k in obs if obs[k] != h.obs[k]]
                    self.miss({'C01'}, f'document {i} changed: {k}', {k[0]: (h.obs[k[0]], obs[k[0]])}, step)
            if h.bytes is not None and (step == len(self.t['hist']) or i == step - 1):
                w = self.guard('Write', step, lambda: write(h.doc))
                if w is not None and w[1] != h.bytes:
                    self.miss({'C01'}, f'document {i} writes other bytes', {'before': h.bytes[-300:], 'after': w[1][-300:]}, step)

    def apply(self, e, step):
        op, h = e['op'], self.hs[e['d'] - 1]
        doc, refs, exact = h.doc, dict(h.refs), h.exact
        R = lambda o: refs.get(o, complex(0, 9999))
        n2o = dict(h.n2o)
        if op == 'Add':
            num = len(doc.index[-1])
            refs[e['o']] = complex(0, num)
            v = tolib(val(e['o'], e['v'], e['r'], R))
            new, iref = P.add_object(doc, v)
            if iref != refs[e['o']]:
                refs[e['o']] = iref
                if e['r'] == e['o']:
                    new = P.update_object(new, int(iref.imag), tolib(val(e['o'], e['v'], e['r'], R)))
            spoil(v)
            n2o[int(iref.imag)] = e['o']
        elif op == 'Upd':
            v = tolib(val(e['o'], e['v'], e['r'], R))
            new = P.update_object(doc, int(refs[e['o']].imag), v)
            spoil(v)
        elif op in ('Del', 'DelAgain'):
            new = P.update_object(doc, int(refs[e['o']].imag), None)
            exact = False
        elif op == 'Commit':
            new = P.commit(doc)
        elif op == 'Rewind':
            new = P.rewind(doc)
            exact = False
        elif op == 'Force':
            new = P.force_xref_stream(doc, bool(step % 3 == 2), ['/FlateDecode', None, '/ASCIIHexDecode'][step % 3])
        elif op == 'Group':
            new = P.group_obj_into_stream(P.force_xref_stream(doc))
        elif op == 'Squash':
            new = P.squash(doc)
            self.squashed(h, new, step, {'C06'})
            refs, n2o = self.relocate(new, {'C06'}, step)
            exact = True
        elif op == 'Compress':
            new = P.compress(doc)
            if P.version(new) < '1.5':
                self.miss({'C07'}, 'Compress: version', P.version(new), step)
            refs, n2o = self.relocate(new, {'C07'}, step)
            exact = True
        elif op in ('Write', 'Reload'):
            new, data = write(doc)
            hh = Handle(doc, refs, e['doc'], exact=exact)
            hh.n2o = n2o
            self.bytes_facts(hh, data, step, False)
            if op == 'Reload':
                new = P.loads(data) if step % 2 else P.load(io.BytesIO(data), 'CONTINUOUS')
        nh = Handle(new, refs, e['doc'], exact=exact)
        nh.n2o = n2o
        return nh

    def relocate(self, doc, owners, step):
        prj, refs, problems = project(live_objs(doc))
        return refs, {int(r.imag): o for o, r in refs.items()}

    def squashed(self, h, new, step, owners):
        used = sorted(P.in_use(new), key=lambda r: r.imag)
        if used != [complex(0, i + 1) for i in range(len(used))]:
            self.miss(owners, 'Squash: numbering', repr(used), step)
        objs = live_objs(new)
        n = len(objs)
        for num, (g, v) in objs.items():
            for r in P.deep_ref_detect(v):
                if r.real != 0 or not 1 <= r.imag <= n:
                    self.miss(owners, 'Squash: reference', f'{r} in {num}', step)
        if any(type(v) == Stream and v.entries.get('/Type') in ('/ObjStm', '/XRef') for g, v in objs.values()):
            self.miss(owners, 'Squash: object of the old file structure kept', repr(objs)[:300], step)
        prj, refs, _ = project(objs)
        tr = P.trailer(new)
        if tr.get('/Root') != refs.get(CAT):
            self.miss(owners, 'Squash: root', repr(tr), step)
        if INFO in refs and tr.get('/Info') != refs[INFO]:
            self.miss(owners, 'Squash: info', repr(tr), step)

    # ------------------------------------------------------------- bytes
    def written(self, h, doc, step, check_reload):
        """Write a document, judge its bytes."""
        exp = h.exp
        if exp['chgs'][-1]:
            exp = {'revs': exp['revs'] + [exp['revs'][-1]], 'chgs': exp['chgs'] + [[]], 'segs': exp['segs'] + [('w', step)]}
        hh = Handle(doc, h.refs, exp, exact=h.exact)
        hh.n2o = h.n2o
        self.bytes_facts(hh, write(doc)[1], step, check_reload)
        return True

    def bytes_facts(self, h, data, step, check_reload):
        exp, segs = h.exp, tuple(h.exp['segs'])
        closed = exp['revs'][:len(segs)]
        nbase = 0
        while self.base.data is not None and nbase < len(segs) and segs[nbase] == nbase + 1:
            nbase += 1
        # C02: bytes of closed revisions never change
        if self.pid == 'C02':
            for p, b in list(self.known.items()):
                k = len(p)
                if segs[:k] == p:
                    core = b.rstrip(b'\r\n')
                    if data[:len(core)] != core:
                        self.miss({'C02'}, 'bytes of a closed revision differ', {'segs': p, 'was': core[-200:], 'is': data[:len(core)][-200:]}, step)
                    elif k == len(segs) and (data.rstrip(b'\r\n') != core):
                        self.miss({'C02'}, 'something follows the last revision', {'segs': p, 'rest': data[len(core):][:200]}, step)
            if nbase == len(segs) and nbase:
                b = self.base.data
                cut = self.base.built.secs[-1]['end'] if nbase == len(self.base.secs) else None
                whole = self.base.built.secs[-1]['end'] == len(b) or b.endswith((b'\n', b'\r')) and not b[self.base.built.secs[-1]['end']:].strip()
                if nbase == len(self.base.secs) and whole and data != b:
                    self.miss({'C02'}, 'unmodified document differs from its file', {'len': (len(b), len(data))}, step)
            if data[:len(self.base.data or b'')] != (self.base.data or b'')[:len(data)] and nbase == len(self.base.secs or []) and nbase:
                end = self.base.built.secs[-1]['end']
                if data[:end] != self.base.data[:end]:
                    self.miss({'C02'}, 'original bytes rewritten', None, step)
        if self.base.data is None or nbase == 0:
            old = {'end': 0, 'last': -1, 'max': 0, 'gens': []}
        else:
            sec = self.base.built.secs[nbase - 1]
            end = sec['end']
            while data[end:end + 1] and data[end] in b'\r\n':
                end += 1
            gens = [(o, int(GENS.get(self.base.name, {}).get(o, 0))) for o in range(1, 60)]
            mx = max(max(s['entries']) for s in self.base.built.secs[:nbase])
            mx = max([mx] + [n for s in self.base.built.secs[:nbase] for n in s['objs']]
                     + [n for s in self.base.built.secs[:nbase] for n in s.get('hidden', {})])
            old = {'end': end, 'last': sec['startxref'], 'max': mx, 'gens': gens}
        # C02: one section per later non-empty revision
        nsecs = len(segs) - nbase
        rec = layout.record(f'{self.tid}/{step}', data, old, h.exact, nsecs)
        if self.pid == 'C02' and not rec['error'] and len(rec['secs']) != nsecs:
            self.miss({'C02'}, 'number of appended sections', {'got': len(rec['secs']), 'want': nsecs}, step)
        if self.pid == 'C08':
            self.layouts.append(rec)
        if self.pid in ('C03', 'C06', 'C07'):
            for k in range(nsecs + (1 if nbase else 0)):
                d = same_read(data, closed[len(closed) - 1 - k], k)
                if d:
                    self.miss({'C03'} if self.pid == 'C03' else {self.pid}, 'bytes do not hold the document',
                              {'revisions back': k, **d}, step)
                    break
        if self.pid == 'C02' or segs not in self.known:
            if len(segs) <= len(exp['revs']):
                self.known.setdefault(segs, data)
        if check_reload and self.pid in ('C03', 'C06', 'C07'):
            doc = P.loads(data)
            for k in range(len(exp['revs']) - 1, -1, -1):
                hh = Handle(doc, h.refs, {'revs': exp['revs'][:k + 1], 'chgs': exp['chgs'][:k + 1], 'segs': []})
                hh.n2o = h.n2o
                obs = observe(doc, h.n2o)
                for aspect, detail in compare(obs, hh.exp):
                    self.miss({self.pid}, f'reopened, revision {k}: {aspect}', detail, step)
                if k:
                    doc = P.rewind(doc)


GENS = {'gap': {7: 2, 9: 1}, 'gapstream': {7: 2, 9: 1}, 'gens': {5: 3, 6: 1, 7: 12}}


def job(args):
    trace, pid, lazy, tid = args
    docmodel.plain_mode(max(0, tid % 7 - 4) if isinstance(tid, int) else 0)
    with contextlib.redirect_stdout(io.StringIO()):
        r = Replay(trace, pid, lazy, tid)
        r.run()
    return {'bad': r.bad, 'layouts': r.layouts, 'ops': r.nops}


def short(trace):
    return f"{BASES[trace['base'] - 1].name}: " + ' '.join(
        f"{e['op']}({e['d']}" + (f",o{e['o']}" if e['o'] else '') + (f"->o{e['r']}" if e['r'] else '') + ')' for e in trace['hist'])


def behaviours(c, weights, nsim, depth, bfs_ops=ALLOPS, bfs_depth=2):
    """Exhaustive short behaviours and random long ones."""
    r = c.tlc('Revisions', consts(bfs_ops, bfs_depth, False, 'one'), invariants=SPECPROPS + ['Emit'],
              properties=['Persistent'], workers=8)
    n = len(r.values)
    r2 = c.tlc('Revisions', consts(weights, depth, True, 'all'), invariants=SPECPROPS + ['Emit'],
               simulate=(nsim, depth + 2), workers=8)
    c.cov['exhaustive_behaviours'], c.cov['random_behaviours'] = n, len(r2.values)
    return r.values + r2.values


def replay_all(c, traces, pid):
    jobs = [(t, pid, i % 2 == 1, i) for i, t in enumerate(traces)]
    res = pmap(job, jobs, limit=60)
    recs, nops = [], 0
    for (t, _, lazy, i), r in zip(jobs, res):
        if 'crash' in r:
            c.violation('hang' if r['kind'] == 'hang' else 'driver', {'trace': short(t), **r})
            continue
        nops += r['ops']
        recs += r['layouts']
        for b in r['bad'][:1]:
            c.violation(f"{short(t)} @{b['step']}", {'lazy': lazy, **b})
    c.add(traces_validated_against_impl=len(traces), operations_replayed=nops)
    for t in traces[-3:]:
        c.sample(short(t))
    return recs


def check_layouts(c, recs, names):
    import tempfile
    with tempfile.NamedTemporaryFile('w', prefix='verif_l_', suffix='.ndjson', delete=False) as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    try:
        run = c.tlc('Layout', {'Records': f.name}, invariants=['Report'], post='Accepted', workers=1)
    finally:
        os.unlink(f.name)
    by = {str(r['id']): r for r in recs}
    for v in run.values:
        c.violation(f"layout {names(v['rec'])}: {v['failing'][0]}", {'failing': v['failing'], 'record': by[v['rec']]})
    c.add(layout_records=len(recs), sections_checked=sum(len(r['secs']) for r in recs))


def scale_job(case):
    """Many objects, large files: field widths of cross-reference entries. Returns (records, problems)."""
    n, big, mode, mode2 = case
    recs, bad = [], []
    doc = P.blank()
    live = {1: (1, 0, 0), 2: (1, 0, 0), 3: (1, 0, 0)}
    refs = {1: 1j, 2: 2j, 3: 3j}
    R = lambda o: refs[o]
    nxt = [4]

    def add(doc, v):
        o = nxt[0]
        nxt[0] += 1
        if o == 4:
            o = nxt[0]
            nxt[0] += 1
        doc, refs[o] = P.add_object(doc, tolib(val(o, v, 3, R)))
        live[o] = (1, v, 3)
        return doc

    def go(doc, mode, old, tag):
        if mode != 'table':
            doc = P.force_xref_stream(doc)
        if mode == 'group':
            doc = P.group_obj_into_stream(doc)
        doc, data = write(doc)
        r = layout.record(f'{n}/{big}/{mode}/{tag}', data, old, False, 2 if tag == 1 else 1)
        recs.append(r)
        top = max(live)
        d = same_read(data, [live.get(i, (0, 0, 0)) for i in range(1, top + 1)])
        if d:
            bad.append(d)
        return doc, data, r
    for i in range(n):
        doc = add(doc, 10 + i % 5)
        if big and i == n // 2:
            o = nxt[0]
            nxt[0] += 1
            doc, iref = P.add_object(doc, forge_stream({'/Tag': docmodel.tag(o, 1), '/R': 3j, '/Sub': {}}, b'')[0])
            doc = P.update_object(doc, int(iref.imag), None)
            doc, _ = P.add_object(doc, b'(' + b'x' * big + b')')
            doc = P.update_object(doc, 3, {**doc.get_object(3j)})
    if big:
        for r in list(P.in_use(doc)):
            v = doc.get_object(r)
            if type(v) == bytes and len(v) > big:
                doc = P.update_object(doc, int(r.imag), {'/Tag': docmodel.tag(9999, 1), '/Z': v})
    extra = big

    def same_read(data, rev):
        tr, objs = pdfscan.read_pdf(data)
        prj, _, problems = project(objs)
        if extra:
            prj.pop(9999, None)
        want = expected(rev)
        if problems or prj != want:
            return {'problems': problems[:2], 'differ': [o for o in set(prj) | set(want) if prj.get(o) != want.get(o)][:5]}
    doc, data, r = go(doc, mode, {'end': 0, 'last': -1, 'max': 0, 'gens': []}, 1)
    doc = P.loads(data)
    for o in sorted(live):
        if o > 5 and o % 7 == 3 and o not in (3,):
            doc = P.update_object(doc, int(refs[o].imag), None)
            del live[o]
        elif o > 5 and o % 7 == 4:
            doc = P.update_object(doc, int(refs[o].imag), tolib(val(o, 20, 3, R)))
            live[o] = (1, 20, 3)
    doc = add(doc, 21)
    gens = [(i, 0) for i in range(1, n + 20)]
    mx = max([e[0] for s in r['secs'] for e in s['entries']] + [0])
    last = r['secs'][-1]['pos'] if r['secs'] else 0
    doc, data2, r2 = go(doc, mode2, {'end': len(data), 'last': last, 'max': mx, 'gens': gens}, 2)
    doc3 = P.loads(data2)
    prj, _, problems = project(live_objs(doc3))
    prj.pop(9999, None)
    want = expected([live.get(i, (0, 0, 0)) for i in range(1, max(live) + 1)])
    if prj != want or problems:
        bad.append({'reopened': [o for o in set(prj) | set(want) if prj.get(o) != want.get(o)][:5], 'problems': problems[:2]})
    return {'recs': recs, 'bad': bad, 'case': case}


def scale(c, pid):
    sizes = [(8, 0), (252, 0), (256, 0), (300, 0), (6, 240), (12, 65200), (12, 70000)]
    if THOROUGH:
        sizes += [(i, 0) for i in range(240, 260)] + [(9, 200 + i) for i in range(0, 60)] + [(9, 64900 + 17 * i) for i in range(30)] + [(6, 17000000), (1200, 0)]
    modes = [('table', 'table'), ('stream', 'stream'), ('group', 'group')] + ([('group', 'stream')] if THOROUGH else [])
    cases = [(n, b, m, k) for n, b in sizes for m, k in modes]
    recs = []
    for case, r in zip(cases, pmap(scale_job, cases, limit=120, chunk=1)):
        if 'crash' in r:
            c.violation(f'scale {case}', r)
            continue
        if pid == 'C03':
            for b in r['bad']:
                c.violation(f'scale {case}', b)
        recs += r['recs']
    c.add(scale_cases=len(cases))
    return recs


def run(c, pid, weights, nsim=800, depth=8, **kw):
    if THOROUGH:
        nsim, depth = nsim * 8, depth + 4
    traces = behaviours(c, weights, nsim, depth, **kw)
    recs = replay_all(c, traces, pid)
    c.assumptions += ['replay is against the public API; a document is compared through in_use/get_object/changes/repr and the bytes it writes']
    return recs, traces


W = {'Add': 3, 'Upd': 3, 'Del': 2, 'DelAgain': 1, 'Commit': 3, 'Rewind': 2, 'Squash': 1, 'Compress': 1, 'Reload': 2, 'Write': 1,
     'Force': 1, 'Group': 1}


def weights(**over):
    w = {**W, **over}
    return [o for o in ALLOPS for _ in range(w[o])]


def c01(c):
    run(c, 'C01', weights(Commit=4, Rewind=3), nsim=400)


def c02(c):
    run(c, 'C02', weights(Write=3, Reload=3))


def c03(c):
    run(c, 'C03', weights(Write=2, Reload=4))
    scale(c, 'C03')


def c04(c):
    run(c, 'C04', weights(Commit=6, Rewind=5, Squash=1))


def c05(c):
    run(c, 'C05', weights(Add=4, Upd=4, Del=4, DelAgain=2))


def c06(c):
    run(c, 'C06', weights(Squash=5, Del=4))


def c07(c):
    run(c, 'C07', weights(Compress=5, Del=3))


def c08(c):
    recs, traces = run(c, 'C08', weights(Write=2, Force=2, Group=3, Del=4))
    recs += scale(c, 'C08')
    check_layouts(c, recs, lambda i: short(traces[int(i.split('/')[0])]) if i.count('/') == 1 else 'scale ' + i)
