#!/usr/bin/env python3-vt
"""Decide one property: python3-vt check.py ID [--tier quick|thorough]"""
import argparse
import collections
import json
import os
import re
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from symex import explore, known   # noqa: E402
import registry   # noqa: E402

# share of paths the engine may fail to follow before a run gives no answer
MAX_LOST = 0.34


def write_replay(pid, item, values, msg, n):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'mod': item.mod, 'fn': item.fn, 'params': item.params, 'values': values,
                   'message': msg, 'how': 'cd /verif && %s -m symex.replay /repo /verif --show %s' % (
                       explore.REPLAY_PY, path)}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--cap', type=float, help='wall-clock limit for the exploration (s)')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--strict', action='store_true', help='any gap or unfinished item is an error (development)')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = registry.PROPS[pid]
    items = list(prop['quick'])
    if a.tier == 'thorough':
        items += prop.get('thorough', [])
    cap = a.cap or (prop.get('cap', 240) if a.tier == 'quick' else prop.get('cap_thorough', 840))
    rep = explore.explore(items, time_cap=cap, workers=a.workers, seed=seed,
                          samples_per_item=prop.get('samples', 8) if a.tier == 'quick' else 32)

    total = sum(rep.paths.values())
    good = rep.paths['ok']
    # violation: confirmed by the real code; exc/steps: the path ended in an error the real code did not show
    lost = rep.paths['gap'] + rep.paths['exc'] + rep.paths['steps'] + rep.paths['violation']
    out = []
    status = 0
    nviol = 0
    if rep.violations:
        status = 1
        seen = set()
        for item, values, msg in rep.violations:
            k = (item.name, re.sub(r'\d+', '#', msg or '')[:60])
            if k in seen or len(seen) >= 3:
                continue
            seen.add(k)
            nviol += 1
            p = write_replay(pid, item, values, msg, nviol)
            out.append('counterexample in %s: %s' % (item.name, msg))
            out.append('VIOLATION property=%s replay=%s' % (pid, p))
    else:
        if rep.mismatch and len(rep.mismatch) > MAX_LOST * (rep.validated + len(rep.mismatch)):
            status = 2
        if good == 0 or lost > MAX_LOST * (good + lost):
            status = 2
        if a.strict and (rep.mismatch or lost or rep.unfinished or rep.realised or rep.unconfirmed):
            status = 3
    for kid, (item, vals, msg) in sorted(rep.kf.items()):
        out.append('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, known.text(kid)))

    samples = []
    for name, d in list(rep.items.items())[:40]:
        samples.append({'harness': name, **d})
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total,
            'transitions': rep.branches,
            'traces_validated_against_impl': rep.validated,
            'exhaustive': not rep.unfinished and not lost and not rep.realised,
            'samples': samples,
            'paths_by_outcome': dict(rep.paths),
            'assertions_decided': rep.checks,
            'solver_queries': rep.queries,
            'solver_time_s': round(rep.solver_s, 2),
            'cpu_time_s': round(rep.cpu, 2),
            'longest_path_decisions': rep.maxlen,
            'functions_encoded': sorted(f for f in rep.funcs if f.startswith('pyulog')),
            'bounds': prop['bounds'],
            'outside_bounds': prop.get('outside', ''),
            'items_not_exhausted': [{'harness': n, 'open_prefixes': k} for n, k in rep.unfinished],
            'values_made_concrete': dict(rep.realised),
            'paths_run_concretely_instead': rep.gap_runs,
            'counterexamples_not_reproduced': len(rep.unconfirmed),
            'encoding_mismatches': len(rep.mismatch),
            'explanation': 'states = symbolic paths executed over the instrumented source; transitions = branch '
                           'decisions settled by Z3; traces_validated = inputs solved from explored paths, re-run on '
                           'the unmodified code under %s with equal observations' % explore.REPLAY_PY,
        },
        'assumptions': prop.get('assumptions', []) + registry.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s %s: %d paths (%s), %d assertions, %d queries, solver %.1f s, %d replays agree, wall %.1f s' % (
        pid, a.tier, total, ', '.join('%s %d' % kv for kv in sorted(rep.paths.items())), rep.checks, rep.queries,
        rep.solver_s, rep.validated, time.time() - t0))
    for name, k in rep.unfinished:
        print('  not exhausted: %s (%d open prefixes)' % (name, k))
    if rep.realised:
        print('  made concrete: %s' % dict(rep.realised))
    for m, n in rep.msgs.most_common(6):
        print('  path note (%d): %s' % (n, m[:400]))
    for it, m, v in rep.unconfirmed[:4]:
        print('  not reproduced: %s: %s' % (it.name, str(m)[:300]))
    for m in rep.mismatch[:4]:
        print('  encoding mismatch: %s' % (str(m)[:400],))
    for ln in out:
        print(ln)
    if status == 2:
        print('NO ANSWER: the engine could not follow this code')
    sys.stdout.flush()
    sys.exit(status)


if __name__ == '__main__':
    main()
