#!/usr/bin/env python3
"""Runs the checks against planted changes, each in a copy of /repo:
    hunt.py [-a] [-c C01,C02] BUG...      (-a: every claimed check)
A development helper: no check uses it."""
import json
import os
import re
import subprocess
import sys
import time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
only = None
if '-c' in args:
    k = args.index('-c')
    only = args[k + 1].split(',')
    del args[k:k + 2]
bugs = [a for a in args if not a.startswith('-')]
if not bugs:
    bugs = sorted(os.listdir(f'{H}/seeded'))
man = json.load(open(f'{H}/MANIFEST.json'))
ids = [c['property'] for c in man['checks']] if 'property' in man['checks'][0] \
    else [c['id'] for c in man['checks']]
for b in bugs:
    d = f'{H}/seeded/{b}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    wt = f'/tmp/hunt_{os.getpid()}'
    subprocess.run(['rm', '-rf', wt])
    subprocess.run(['cp', '-a', '/repo', wt])
    r = subprocess.run(['git', '-C', wt, 'apply', f'{d}/patch.diff'])
    assert r.returncode == 0, b
    for p in (only or (ids if every else [prop])):
        t = time.time()
        r = subprocess.run(
            [sys.executable, f'{H}/run.py', p, 'quick'], capture_output=True,
            text=True, env=dict(os.environ, MC_REPO=wt))
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        good = r.returncode == 1 and any(f'property={p} ' in x for x in v)
        note = '' if good else r.stdout.strip()[-300:].replace('\n', ' | ')
        if every and r.returncode == 0:
            note = ''
        print(f'{b:24s} {p}{"*" if p == prop else " "} '
              f'{"CAUGHT" if good else "quiet" if r.returncode == 0 else "EXIT %d" % r.returncode} '
              f'{time.time() - t:.0f}s {len(v)} violations {note}', flush=True)
    subprocess.run(['rm', '-rf', wt])
