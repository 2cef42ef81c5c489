#!/usr/bin/env python3
"""Run all (or the given) checks in parallel: all.py [-t] [C01 C02 ...]; VERIF_REPO selects another tree."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a.startswith('C')]
tier = 'thorough' if '-t' in sys.argv else 'quick'
if not ids:
    ids = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]


def one(i):
    p = subprocess.run([sys.executable, 'run.py', i, tier], cwd=ROOT, capture_output=True, text=True)
    return i, p.returncode, p.stdout, p.stderr


with ThreadPoolExecutor(8) as ex:
    for i, rc, out, err in ex.map(one, ids):
        L = [l for l in out.splitlines() if l]
        print(i, 'rc=%d' % rc, L[-1][:150] if L else err[-300:])
        for l in L:
            if l.startswith(('VIOLATION', 'KNOWN')):
                print('   ', l[:220])
