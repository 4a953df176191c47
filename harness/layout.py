"""Raw layout of the sections of a written file, as records for Layout.tla."""
import pdfscan
from pdfscan import ScanError, token


def record(rid, data, old, exact, nsecs):
    """old: dict(end, last, max, gens): what the file held before the library wrote to it."""
    r = {'id': rid, 'error': '', 'exact': exact, 'nsecs': nsecs, 'secs': [],
         'old': {'last': old['last'], 'max': old['max'], 'gens': [list(g) for g in old['gens']]}}
    try:
        r['secs'] = sections(data, old['end'])
    except (ScanError, KeyError, IndexError, ValueError, TypeError, AttributeError, OverflowError) as e:
        r['error'] = f'{type(e).__name__}: {e}'[:200]
    return r


def sections(d, i):
    out = []
    if i == 0 and d[:5] != b'%PDF-':
        raise ScanError('no header')
    while True:
        i = pdfscan.skip_ws(d, i)
        if i >= len(d):
            return out
        objs, stms, xs = [], [], None
        while True:
            t = token(d, i)
            if t[0] != 'num':
                break
            o = pdfscan.indirect(d, i)
            objs.append([o['num'], o['gen'], o['start'], o['lenok']])
            v = o['value']
            if isinstance(v, pdfscan.St) and v.entries.get('/Type') == '/ObjStm':
                mem = pdfscan.objstm(v)
                stms.append({'num': o['num'], 'n': v.entries['/N'], 'first': v.entries['/First'],
                             'head': v.entries['/First'] if all(m[3] for m in mem) else -1,
                             'members': [[m[0], m[1], bool(m[3])] for m in mem]})
            if isinstance(v, pdfscan.St) and v.entries.get('/Type') == '/XRef':
                xs = o['start']
            i = pdfscan.skip_ws(d, o['end'])
        s = {'kind': 'T', 'w': [], 'index': [], 'datalen': 0, 'num': 0}
        t = token(d, i)
        if t[:2] == ('kw', 'xref'):
            x = pdfscan.xref_at(d, t[2])
            i = x['end']
        elif xs is not None:
            x = pdfscan.xref_at(d, xs)
            s.update(kind='S', num=x['num'], w=x['trailer']['/W'],
                     index=x['trailer'].get('/Index', [0, x['trailer']['/Size']]),
                     datalen=len(pdfscan.indirect(d, xs)['value'].data))
            if xs != objs[-1][2]:
                raise ScanError('cross-reference stream is not last')
        else:
            raise ScanError(f'cross-reference section expected at {i}')
        a = token(d, i)
        b = token(d, a[3])
        if a[:2] != ('kw', 'startxref') or b[0] != 'num':
            raise ScanError(f'startxref expected at {i}')
        j = b[3]
        while d[j:j + 1] and d[j] in pdfscan.WS:
            j += 1
        ok = d[j:j + 5] == b'%%EOF' and d[j - 1:j] in (b'\n', b'\r')
        tr = x['trailer']
        s.update(pos=x['pos'], startxref=b[1], ok=ok, prev=tr.get('/Prev', -1), size=tr['/Size'],
                 entries=[list(e) for e in x['entries']], objs=objs, stms=stms)
        if isinstance(s['prev'], complex):
            raise ScanError('/Prev is a reference')
        out.append(s)
        i = j + 5
