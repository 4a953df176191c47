#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that every specification parses."""
import os, subprocess, sys
sys.dont_write_bytecode = True
import vlib
bad = 0
mods = [f for f in sorted(os.listdir(vlib.SPEC)) if f.endswith('.tla')]
for f in mods:
    r = subprocess.run(['java', '-cp', vlib.CP, 'tla2sany.SANY', f], cwd=vlib.SPEC, capture_output=True, text=True)
    if r.returncode != 0 or 'Semantic errors' in r.stdout or 'Parse Error' in r.stdout:
        print(f, r.stdout[-2000:], file=sys.stderr)
        bad = 1
print(f'{len(mods)} specifications parsed')
sys.exit(bad)
