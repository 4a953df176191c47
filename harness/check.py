#!/usr/bin/env python3
"""check.py <property>: run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, sys
sys.dont_write_bytecode = True
import vlib
MODULES = {}
for m, ids in {
    'revisions': 'C01 C02 C03 C04 C05 C06 C07 C08',
    'xreffile': 'C09 C10 C11 C12', 'overview': 'C28',
    'syntax': 'C13 C14', 'filters': 'C15', 'pages': 'C16 C17 C18 C19 C20 C27',
    'textstring': 'C21', 'content': 'C22 C23 C24', 'windows': 'C25 C29', 'browse': 'C26', 'markdown': 'C30',
}.items():
    for i in ids.split():
        MODULES[i] = m
pid = sys.argv[1]
mod = importlib.import_module('d_' + MODULES[pid])
vlib.main(pid, getattr(mod, pid.lower()))
