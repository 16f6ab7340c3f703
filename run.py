#!/usr/bin/env python3
"""Decides one property:  run.py C04 [quick|thorough]   (see DESIGN.md)

Copies /repo's simulator sources to a scratch folder, builds the explorers of
the property against them, runs them, replays every failure in a fresh process
and writes evidence/<id>.json."""
import collections
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, HERE)
from plan import PLAN, ASSUMPTIONS  # noqa: E402

FLAGS = ['-std=c++20', '-O2', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w']
ASAN = ['-std=c++20', '-O2', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w',
        '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
        '-fno-omit-frame-pointer']


def log(*a):
    print(*a, flush=True)


def sh(cmds, what, cwd=None):
    """Runs compile commands in parallel"""
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, cwd=cwd) for c in cmds]
    bad = []
    for c, p in zip(cmds, ps):
        out, _ = p.communicate()
        if p.returncode:
            bad.append((c, out))
    if bad:
        for c, out in bad:
            log('BUILD FAILED:', ' '.join(c))
            log(out[-3000:])
        log('ERROR', what)
        sys.exit(2)


def build(tmp, jobs):
    src = os.path.join(tmp, 'src')
    shutil.copytree(os.path.join(REPO, 'soil_simulator'),
                    os.path.join(src, 'soil_simulator'))
    os.makedirs(os.path.join(src, 'results'))
    units = sorted(f for f in glob.glob(src + '/soil_simulator/**/*.cpp',
                                        recursive=True)
                   if os.path.basename(f) != 'main.cpp')
    variants = sorted({j['variant'] for j in jobs})
    compiles, links = [], []
    for v in variants:
        fl = ASAN if v == 'asan' else FLAGS
        inc = ['-include', HERE + '/mc/shim.hpp', '-I' + src,
               '-I' + HERE + '/mc']
        d = os.path.join(tmp, v)
        os.makedirs(d)
        objs = []
        for u in units + [HERE + '/mc/mc.cpp']:
            o = os.path.join(d, re.sub(r'\W', '_', os.path.relpath(u, src)) +
                             '.o')
            # paths of the units relative to src: the writers put their
            # files in <directory of the unit>/../results
            rel = os.path.relpath(u, src)
            compiles.append(['g++', *fl, *inc, '-c',
                             u if rel.startswith('..') else rel, '-o', o])
            objs.append(o)
        for h in sorted({j['bin'] for j in jobs if j['variant'] == v}):
            o = os.path.join(d, h + '.ho')
            compiles.append(['g++', *fl, *inc, '-c', f'{HERE}/mc/{h}.cpp',
                             '-o', o])
            links.append(['g++', *fl, o, *objs, '-lglog', '-o',
                          os.path.join(d, h)])
    sh(compiles, 'compile', src)
    sh(links, 'link')


def run_bin(tmp, job, tier, n, extra=(), limit=800):
    out = os.path.join(tmp, f'o{n}')
    os.makedirs(out)
    cmd = [os.path.join(tmp, job['variant'], job['bin']), '--out', out + '/O',
           '--tier', tier, '--tmp', out, *job['args'], *extra]
    env = dict(os.environ)
    if job['variant'] == 'asan':
        cmd += ['--asan', '1']
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:'
                               'allocator_may_return_null=1:quarantine_size_mb=8:'
                               'malloc_context_size=4')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    env['MC_SRC'] = os.path.join(tmp, 'src')
    err = open(out + '/stderr', 'w')
    p = subprocess.Popen(cmd, stderr=err, stdout=err, env=env, cwd=out,
                         start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = -1
    res = dict(rc=rc, counters=collections.Counter(), maxima={}, samples=[],
               fails=[], events=[], distinct={}, cmd=cmd)
    for f in sorted(glob.glob(out + '/O.r*')):
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        res['counters'].update(d['counters'])
        for k, v in d['maxima'].items():
            res['maxima'][k] = max(v, res['maxima'].get(k, 0))
        res['samples'] += d['samples']
        res['fails'] += d['fails']
    end = False
    if os.path.exists(out + '/O.events'):
        for line in open(out + '/O.events'):
            w = line.rstrip('\n').split('\t')
            if w[0] == 'end':
                end = True
            else:
                res['events'].append(w)
    if os.path.exists(out + '/O.distinct'):
        for line in open(out + '/O.distinct'):
            k, v = line.split('\t')
            res['distinct'][k] = int(v)
    with open(out + '/stderr', errors='replace') as f:
        res['stderr'] = f.read()[-6000:]
    if not end:
        res['events'].append(['abort', '-', '-', '-1', f'explorer ended with '
                              f'{rc}'])
    shutil.rmtree(out, ignore_errors=True)
    return res


def crash_case(ev):
    kind, _, sec, idx, why = ev
    return sec, idx, f'{kind}: {why}'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    t0 = time.time()
    jobs = [dict(variant='std', args=[]) | j for j in PLAN[prop]['jobs']
            if tier in j.get('tiers', ('quick', 'thorough'))]
    if tier not in ('quick', 'thorough'):
        sys.exit(f'unknown tier {tier}')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    if only:
        jobs = [j for j in jobs if j['bin'] == only]
    tmp = tempfile.mkdtemp(prefix=f'mc_{prop}_')
    rc = 2
    try:
        build(tmp, jobs)
        log(f'{prop}: built in {time.time() - t0:.1f} s')
        rc = decide(prop, tier, jobs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, jobs, tmp, t0):
    budget = 820 if tier == 'quick' else 3 * 3600
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    found, seen_known, internal = [], {}, []
    total = collections.Counter()
    distinct = collections.Counter()
    samples, detail = [], []
    n = 0
    for job in jobs:
        n += 1
        t1 = time.time()
        left = budget - (time.time() - t0)
        r = run_bin(tmp, job, tier, n, limit=max(30, left))
        total.update(r['counters'])
        distinct.update(r['distinct'])
        samples += r['samples'][:8]
        detail.append(dict(explorer=job['bin'], args=job['args'],
                           variant=job['variant'],
                           counters=dict(r['counters']),
                           distinct=r['distinct'], maxima=r['maxima'],
                           wall_s=round(time.time() - t1, 2)))
        todo = {}
        for f in r['fails']:
            todo.setdefault((f['section'], f['key']), []).append(f)
        for ev in r['events']:
            if ev[0] == 'abort':
                internal.append((job, ev, r['stderr']))
                continue
            sec, idx, why = crash_case(ev)
            if 'exit 77' in why:
                internal.append((job, ev, r['stderr']))
                continue
            todo.setdefault((sec, 'crash'), []).append(dict(
                section=sec, index=int(idx), key='crash', msg=why,
                desc=r['stderr'][-1500:], choices=''))
        # replay in a fresh process, at most a few failures
        for (sec, key), fs in list(todo.items())[:6]:
            ok = None
            for f in fs[:3]:
                n += 1
                q = run_bin(tmp, job, tier, n, extra=[
                    '--only', f"{sec}:{f['index']}"], limit=200)
                again = [x for x in q['fails'] if x['key'] == key] or (
                    key == 'crash' and q['events'])
                if again:
                    ok = dict(f, explorer=job['bin'], args=job['args'],
                              variant=job['variant'], tier=tier)
                    if key == 'crash':
                        ok['desc'] = q['stderr'][-3000:]
                    break
            if ok is None:
                n += 1
                # a failure which depends on what ran before it
                q = run_bin(tmp, job, tier, n, extra=['--section', sec],
                            limit=max(60, budget - (time.time() - t0)))
                again = [x for x in q['fails'] if x['key'] == key] or (
                    key == 'crash' and q['events'])
                if again:
                    ok = dict(fs[0], explorer=job['bin'], args=job['args'],
                              variant=job['variant'], tier=tier,
                              note='needs the cases which ran before it')
            if ok is None:
                internal.append((job, ['not reproduced', sec, key,
                                       fs[0]['msg']], ''))
                continue
            k = is_known(known, prop, ok)
            if k:
                seen_known[k] = ok
            else:
                found.append(ok)
    if total['diverged']:
        internal.append((dict(bin='-', args=[]), 'the same draws led to other '
                         'choices: hidden state', ''))
    for k in known['findings']:
        if k['property'] == prop:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
    states = sum(distinct.values())
    capped = {k: v for k, v in total.items() if k.startswith('capped.')}
    ev = dict(
        property=prop, tier=tier,
        seed=int(os.environ.get('VERIF_SEED', '1')),
        level='model_checking',
        coverage=dict(
            states=int(states), transitions=int(total['runs']),
            traces_validated_against_impl=int(total['cases']),
            exhaustive=not capped and not internal,
            samples=samples[:12] or ['none'],
            bounds=PLAN[prop]['bounds'],
            meaning='states: distinct states of the real simulator reached '
            '(by hash); transitions: executions of the real phase or step, '
            'each checked by the oracle; traces: enumerated cases (state or '
            'history), all executed on the implementation itself',
            capped=capped, explorers=detail),
        assumptions=ASSUMPTIONS + PLAN[prop].get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(found))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log(f'{prop} {tier}: {total["cases"]} cases, {total["runs"]} executions, '
        f'{states} distinct states, {ev["wall_s"]} s')
    if found:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, f in enumerate(found):
            p = os.path.join(d, f'{prop}_{i}.json')
            f['replay'] = (f"python3 replay.py {p}")
            json.dump(f, open(p, 'w'), indent=1)
            log(f"  [{f['explorer']} {f['section']}:{f['index']} {f['key']}] "
                f"{f['msg'][:700]}")
            log(f'VIOLATION property={prop} replay={p}')
        return 1
    if internal:
        for job, e, err in internal[:5]:
            log('INTERNAL', job['bin'], job['args'], e, err[-1500:])
        return 2
    return 0


def is_known(known, prop, f):
    for k in known['findings']:
        if k['property'] == prop and k['explorer'] == f['explorer'] and \
                k['section'] == f['section'] and k['key'] == f['key'] and \
                re.search(k['match'], f['msg'] + ' ' + f['desc']):
            return k['what']
    return None


if __name__ == '__main__':
    main()
