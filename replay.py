#!/usr/bin/env python3
"""Replays one recorded violation:  replay.py evidence/replay/C04_0.json"""
import json
import os
import shutil
import sys
import tempfile
import run

f = json.load(open(sys.argv[1]))
job = dict(bin=f['explorer'], args=f['args'], variant=f['variant'])
tmp = tempfile.mkdtemp(prefix='mc_replay_')
try:
    run.build(tmp, [job])
    r = run.run_bin(tmp, job, f['tier'], 0, extra=[
        '--only', f"{f['section']}:{f['index']}"])
    for x in r['fails']:
        print(f"[{x['section']}:{x['index']} {x['key']}] {x['msg']}\n"
              f"{x['desc']}\ndraws: {x['choices']}")
    for e in r['events']:
        print(e, r['stderr'])
    sys.exit(1 if r['fails'] or r['events'] else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
