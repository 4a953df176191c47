#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the drivers that exist (run: python3 tools/manifest.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/harness/check.py').read()
mods = {}
for m, ids in re.findall(r"'(\w+)': '([C\d ]+)'", src):
    for i in ids.split():
        mods[i] = m
NOTE = {
 'revisions': 'TLC explores Revisions.tla (all behaviours of length 2 over 14 base documents, random ones of length 8+) and checks its invariants; every behaviour is replayed into pdfsyntax and compared after each step. Trusts the projection through tags, the independent writer and reader in harness/.',
 'layout': 'As for C01-C07; in addition the raw layout of every written file, read by an independent strict scanner, is judged clause by clause by TLC on Layout.tla.',
 'xreffile': 'TLC generates files (sequences of sections in all layouts) with the denoted content as the specification defines it; an independent writer realizes them and pdfsyntax reads them. Bounded numbers of objects and sections.',
 'overview': 'TLC explores Overview.tla: all behaviours of length 2 over ten files of every layout, random longer ones; the overview is compared after each step. Hybrid and linearized indications are free where rewinding or squashing leaves them undetermined.',
 'syntax': 'TLC generates objects with their spellings, and reads serialized bytes with a reader written in TLA+. Bounded depth and alphabets.',
 'filters': 'Decoders written in TLA+ and bounded data; Flate itself is trusted to zlib.',
 'pages': 'TLC generates page trees, resource graphs and operation histories; pdfsyntax is compared after each step. Bounded trees.',
 'textstring': 'TLC generates texts and spellings with their decoding. Bounded lengths.',
 'content': 'TLC generates operator sequences, fonts and arrangements with expected matrices and texts in exact arithmetic. Bounded lengths.',
 'windows': 'TLC enumerates windows and compositions. Bounded sizes.',
 'browse': 'The anchors and links recorded from the rendered view are judged by TLC on Browse.tla.',
 'markdown': 'TLC generates block sequences of the documented subset. Bounded lengths.',
}
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    m = mods.get(i)
    path = f'{V}/harness/d_{m}.py'
    if os.path.exists(path) and re.search(rf'^def {i.lower()}\(', open(path).read(), re.M):
        checks.append({'property': i, 'quick_cmd': f'python3 -B harness/check.py {i}',
                       'thorough_cmd': f'VERIF_TIER=thorough python3 -B harness/check.py {i}',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'TLA+ specification, TLC; ' + ('trace checking of recorded layouts' if i == 'C08' else
                                    'trace checking' if m in ('browse',) else 'replay of its behaviours into the code'),
                       'level': 'model_checking', 'level_note': NOTE['layout' if i == 'C08' else m]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
out = {'version': 1, 'setup_cmd': 'python3 -B harness/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks: the public API exposes the abstract state. TLA+ with TLC; see DESIGN.md.'}
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
