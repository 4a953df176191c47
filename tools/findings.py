#!/usr/bin/env python3
"""Rewrite the 'fixed' records of known_findings.json: one for each fix commit of /repo; 'open' entries stay."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
M = """2c34825 C13 d6a7bfa C13 dbef871 C13 9b92ddc C14 00e2674 C14 af46897 C08 b6e8dd2 C14 929f420 C14 619888b C08 91cdd22 C13
ef509f3 C15 02560b9 C15 d0b4208 C15 fe9b676 C15 fc3cbc0 C15 9dd6315 C15 a445b42 C21 c8fc708 C21 b0f230b C23 6177701 C23
ac7f803 C23 2fb943b C23 62c8127 C23 0c24042 C22 fea8828 C22 0fe97da C22 47ae83b C22 1143c45 C27 a5eb684 C27 c807acd C27
94044af C16 e4d7c43 C16 0b18e62 C16 393e0f5 C16 55d1005 C05 373344f C05 2fb560a C09 3c548fa C16 56ac808 C01 15b8b0a C09
dae1ba9 C08 a004955 C09 9d4f5ea C28 3697a2a C10 835de3c C29 eb6100b C29 beccc9e C29 e39416e C29 c26a079 C08 33f96e0 C08
5b5ba30 C12 f63056d C03 ef17d12 C03 d907148 C02 63fe0a5 C04 51b8d29 C01 aebd3d4 C01 3f6eb84 C01 d6e032a C07 b8f05c4 C06
0714096 C06 dd8cdca C06 1d4724f C06 5e76ea8 C18 2f8c5f6 C17 4cd23c6 C17 3e59797 C17 8b7d297 C07 e1c69ee C20 729ce0c C20
e7e5515 C19 05dbb36 C06 79e4340 C03 8d4fa60 C03 492c357 C08 da79dfb C11 f443582 C12 d08686e C13 e0f6990 C11 c66c8c3 C13
a820fbb C13 0312448 C13 1813086 C09 0b55eef C15 d15423f C15 a3d2707 C15 3f10b5f C15 3dc6976 C16 65b5762 C20 ccde5fe C23
2377d8e C09 8acfe91 C09 4bd77c9 C22 7f93a95 C22 e9e379d C24 6b1afc7 C24 a1086b9 C24 2525259 C24 86d9bec C24 cd8545b C24 945ca4e C29 21e856e C25
70e5d90 C26 b796f1c C26 4610e71 C26 9a2aff0 C26 83c4f60 C30 8b44a5e C30 e75b1b0 C30 a8d2df5 C30 191adb4 C30 e7ee4d3 C30 6dd8d73 C30 080453d C30""".split()
m = dict(zip(M[::2], M[1::2]))
f = os.path.join(HERE, "..", "known_findings.json")
old = json.load(open(f))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = [e for e in old if e.get("status") != "fixed"]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = None
    if "[C" in s: p = s[s.index("[C") + 1:][:3]
    p = m.get(h, p)
    if p is None: sys.exit("no property for " + l)
    out.append({"status": "fixed", "property": p, "commit": h, "record": "fixed: property=%s %s %s" % (p, h, s[5:])})
with open(f, "w") as fd:
    fd.write("[\n" + ",\n".join(json.dumps(e) for e in out) + "\n]\n")
print(len(out), "records")
