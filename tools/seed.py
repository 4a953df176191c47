#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy of /repo and store it: seed.py <file defining BUGS>."""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run('git rev-list --max-parents=0 HEAD', shell=True, cwd='/repo', capture_output=True, text=True).stdout.strip()
PRE = '''import sys, os, io
sys.dont_write_bytecode = True
import pdfsyntax as P
from pdfsyntax import api, docstruct, objects, filestruct, filters, text, graphics, layout


def table(objs, trailer, freed=()):
    """A file with one cross-reference table; objs: {(number, generation): bytes}."""
    out, pos = b'%PDF-1.4\\n', {}
    for (n, g), b in sorted(objs.items()):
        pos[n] = (len(out), g)
        out += b'%d %d obj\\n' % (n, g) + b + b'\\nendobj\\n'
    x, size = len(out), max(pos) + 1
    out += b'xref\\n0 %d\\n0000000000 65535 f \\n' % size
    for n in range(1, size):
        out += b'%010d %05d n \\n' % pos[n] if n in pos else b'0000000000 00001 f \\n'
    return out + b'trailer\\n<< /Size %d ' % size + trailer + b' >>\\nstartxref\\n%d\\n%%%%EOF\\n' % x


def pages(n, page=b'', root=b'', more={}):
    objs = {(1, 0): b'<< /Type /Catalog /Pages 2 0 R >>',
            (2, 0): b'<< /Type /Pages /Count %d /Kids [' % n + b' '.join(b'%d 0 R' % (3 + i) for i in range(n)) + b'] ' + root + b' >>'}
    for i in range(n):
        objs[(3 + i, 0)] = b'<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %d 500] ' % (100 + i) + page + b' >>'
    objs.update(more)
    return table(objs, b'/Root 1 0 R')


def written(doc):
    p = f'/tmp/demo_{os.getpid()}.pdf'
    try:
        P.writefile(doc, p)
        return open(p, 'rb').read()
    finally:
        if os.path.exists(p):
            os.remove(p)


'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def demo(d, cwd):
    try:
        r = sh(f'bash {d}/demo.sh', cwd=cwd, timeout=280)
        return r.returncode, (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def plant(b):
    w = f'/tmp/seed_{os.getpid()}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git clone -q /repo {w}/repo')
    r = w + '/repo'
    try:
        for f, old, new in b['edits']:
            p = f'{r}/pdfsyntax/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout
        for f in {e[0] for e in b['edits']}:
            bl = sh(f'git blame -s -l HEAD -- pdfsyntax/{f}', r).stdout.split('\n')
            n, orig = 0, 0
            for line in sh(f'git diff -U0 -- pdfsyntax/{f}', r).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))?', line)
                if m:
                    for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                        n += 1
                        orig += bl[k - 1].lstrip('^')[:35] == BASE[:35]
            if orig < n or not n:
                print('   note: only', orig, 'of', n, 'changed lines original in', f)
        d = w + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(PRE + b['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec python3 -B "$(dirname "$0")/demo.py"\n')
        t = sh('/opt/venv/bin/python -B -m pytest tests -q -p no:cacheprovider 2>&1 | tail -4', r).stdout
        if '78 passed' not in t:
            return 'tests: ' + t[-600:]
        a, oa = demo(d, '/repo')
        z, oz = demo(d, r)
        if a != 0 or z == 0:
            return f'demo: unchanged {a} {oa}; changed {z} {oz}'
        out = f'{V}/seeded/{b["id"]}'
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return 'ok ' + oz.strip().split('\n')[-1][:120]
    finally:
        shutil.rmtree(w, ignore_errors=True)


for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
        print(b['id'], plant(b), flush=True)
