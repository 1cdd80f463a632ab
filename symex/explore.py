"""Path exploration over a pool of worker processes."""
import collections
import concurrent.futures as cf
import json
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time
import traceback
from . import core, ctx, fs, shims, instrument, f_sqlite
from .concrete import norm

REPO = os.environ.get('SYMEX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = next((p for p in ('/opt/venv/bin/python',) if os.path.exists(p)), sys.executable)
PATH_SECONDS = 90


class Item:
    """one harness function with its parameters (bounds)"""

    def __init__(self, mod, fn, params=None, cap=None):
        self.mod, self.fn, self.params, self.cap = mod, fn, dict(params or {}), cap

    @property
    def name(self):
        return '%s.%s%s' % (self.mod, self.fn, json.dumps(self.params, sort_keys=True) if self.params else '')


def run_path(item, prefix, want_sample=True):
    """execute one path; returns a result dict"""
    core.CUR_FUNCS.clear()
    p = core.Path(prefix)
    p.deadline = time.time() + PATH_SECONDS
    core.CUR = p
    core.STATS.realised = {}
    loader = instrument.Loader({'pyulog': REPO, 'harness': VERIF})
    c = ctx.Ctx(item.params, loader)
    res = {'st': 'ok', 'msg': None, 'cands': []}
    try:
        try:
            m = loader.load('harness.' + item.mod)
            getattr(m, item.fn)(c)
        except core.PathAbort:
            res['st'] = 'abort'
        except ctx.Violation as e:
            res['st'], res['msg'] = 'violation', str(e)
            res['cands'] = [c.violations[-1][1]]
        except core.StepLimit:
            res['st'], res['msg'] = 'steps', 'step limit'
        except (core.Inconclusive, ctx.Gap) as e:
            res['st'], res['msg'] = 'gap', '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            res['st'], res['msg'] = 'gap', 'recursion'
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            res['st'] = 'exc'
            res['msg'] = 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:200], ' < '.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[:-9:-1]))
        res['pos'] = len(p.log)
        if res['st'] in ('ok', 'exc', 'gap', 'steps') and (want_sample or res['st'] != 'ok'):
            try:
                mod = p.get_model()
                vals = c.values(mod)
                if res['st'] == 'ok':
                    res['sample'] = {'values': vals,
                                     'obs': [(lab, obs_norm(mod, v)) for lab, v in c.obs]}
                else:
                    res['cands'] = [vals]
            except core.PathAbort:
                res['st'] = 'abort'
            except core.Inconclusive as e:
                if res['st'] == 'ok':
                    pass
                else:
                    res['msg'] = '%s / %s' % (res['msg'], e)
    finally:
        f_sqlite.cleanup(p.scope)
        core.CUR = None
    res['alts'] = p.alts
    res['checks'] = c.checks
    res['realised'] = core.STATS.realised
    res['kf'] = c.kf
    return res


def obs_norm(m, v):
    u = ctx.under(m, v)
    if has_opaque(u):
        return None
    return norm(u)


def has_opaque(x):
    if isinstance(x, tuple) and x and x[0] in ('real', 'opaque'):
        return True
    if isinstance(x, dict):
        return any(has_opaque(k) or has_opaque(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(has_opaque(v) for v in x)
    return False


def work(args):
    """a slice of one item's exploration, depth first, up to a time budget"""
    idx, prefixes, budget, seed = args
    item = ITEMS[idx]
    rnd = random.Random(seed)
    t0 = time.time()
    core.STATS.queries = 0
    core.STATS.solver_s = 0.0
    core.STATS.branches = 0
    out = {'idx': idx, 'n': collections.Counter(), 'cands': [], 'samples': [], 'funcs': set(), 'checks': 0,
           'realised': collections.Counter(), 'msgs': collections.Counter(), 'left': [], 'kf': [], 'maxlen': 0}
    todo = list(prefixes)
    while todo:
        if time.time() - t0 > budget:
            break
        prefix = todo.pop()
        k = out['n']['ok']
        want = k < 3 or rnd.random() < 0.05
        r = run_path(item, prefix, want)
        todo.extend(r['alts'])
        out['n'][r['st']] += 1
        out['checks'] += r['checks']
        out['maxlen'] = max(out['maxlen'], r['pos'])
        out['funcs'] |= core.CUR_FUNCS
        out['kf'] += r['kf']
        for k2, v2 in r['realised'].items():
            out['realised'][k2] += v2
        if r['msg']:
            out['msgs'][r['st'] + ': ' + r['msg']] += 1
        if r['cands']:
            out['cands'].append((r['st'], r['msg'], r['cands'][0], prefix))
            if r['st'] == 'violation' and len(out['cands']) >= 3:
                break
        if 'sample' in r:
            out['samples'].append(r['sample'])
    if len(out['samples']) > 6:
        out['samples'] = rnd.sample(out['samples'], 6)
    out['left'] = todo
    out['queries'] = core.STATS.queries
    out['solver_s'] = core.STATS.solver_s
    out['branches'] = core.STATS.branches
    out['cpu'] = time.time() - t0
    return out


def replay(batch, timeout=600, limit=None):
    """run assignments on the real code; list of results"""
    if not batch:
        return []
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0',
               LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    if limit:
        env['SYMEX_REPLAY_LIMIT'] = str(limit)
    try:
        r = subprocess.run([REPLAY_PY, '-m', 'symex.replay', REPO, VERIF], input=json.dumps(batch).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=VERIF)
        lines = r.stdout.decode().splitlines()
        err = r.stderr.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired as e:
        lines = (e.stdout or b'').decode().splitlines()
        err = 'timeout'
    res = []
    for ln in lines:
        try:
            res.append(json.loads(ln))
        except ValueError:
            pass
    by = {x['id']: x for x in res}
    return [by.get(b['id'], {'id': b['id'], 'r': 'none', 'msg': 'replay gave no result: ' + err, 'obs': []})
            for b in batch]


def _batch_item(item, values, i):
    return {'id': i, 'mod': item.mod, 'fn': item.fn, 'params': item.params, 'values': values}


ITEMS = []


class Report:
    def __init__(self):
        self.paths = collections.Counter()
        self.checks = self.queries = self.branches = 0
        self.solver_s = self.cpu = 0.0
        self.funcs = set()
        self.realised = collections.Counter()
        self.msgs = collections.Counter()
        self.validated = 0
        self.mismatch = []
        self.violations = []     # (item, values, msg)
        self.unconfirmed = []    # candidate counterexamples the real code does not show
        self.gap_runs = 0
        self.unfinished = []     # items stopped by a time limit
        self.items = {}
        self.kf = {}
        self.maxlen = 0


def explore(items, time_cap=100.0, workers=8, seed=1, samples_per_item=8, stop_on_violation=True, verbose=False):
    """explore every item; returns a Report"""
    global ITEMS
    ITEMS = items
    rep = Report()
    t0 = time.time()
    rnd = random.Random(seed)
    queues = {i: [[]] for i in range(len(items))}
    per = {i: {'paths': 0, 'left': 0, 'cpu': 0.0, 'st': collections.Counter()} for i in range(len(items))}
    samples = collections.defaultdict(list)
    gapruns = []
    seen_cand = collections.Counter()
    mp = multiprocessing.get_context('fork')
    busy = collections.Counter()
    stop = False
    with cf.ProcessPoolExecutor(workers, mp_context=mp) as ex:
        running = {}
        while True:
            now = time.time() - t0
            if now > time_cap:
                stop = True
            if not stop:
                # least served item first, so that every item gets a share
                while len(running) < workers:
                    ready = [i for i in queues if queues[i] and (items[i].cap is None or per[i]['cpu'] < items[i].cap)]
                    if not ready:
                        break
                    i = min(ready, key=lambda j: (busy[j], per[j]['cpu'], j))
                    q = queues[i]
                    n = max(1, min(40, len(q) // workers))
                    pf, queues[i] = q[-n:], q[:-n]
                    if busy[i] == 0 and len(q) == 1 and per[i]['cpu'] < 0.2:
                        budget = 0.05 if len(ready) < workers else 0.3
                    elif sum(len(x) for x in queues.values()) < 4 * workers:
                        budget = 0.15
                    else:
                        budget = min(2.0, max(0.3, (time_cap - now) / 4))
                    busy[i] += 1
                    running[ex.submit(work, (i, pf, budget, rnd.randrange(1 << 30)))] = (i, pf)
            if not running:
                break
            done, _ = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            todo = []
            for f in done:
                i, pf = running.pop(f)
                busy[i] -= 1
                r = f.result()
                queues[i].extend(r['left'])
                q = per[i]
                q['cpu'] += r['cpu']
                q['paths'] += sum(r['n'].values())
                q['st'].update(r['n'])
                rep.paths.update(r['n'])
                rep.checks += r['checks']
                rep.queries += r['queries']
                rep.branches += r['branches']
                rep.solver_s += r['solver_s']
                rep.cpu += r['cpu']
                rep.funcs |= r['funcs']
                rep.realised.update(r['realised'])
                rep.msgs.update(r['msgs'])
                rep.maxlen = max(rep.maxlen, r['maxlen'])
                for kid, msg, vals in r['kf']:
                    rep.kf.setdefault(kid, (items[i], vals, msg))
                s = samples[i]
                s.extend(r['samples'])
                if len(s) > 4 * samples_per_item:
                    samples[i] = rnd.sample(s, 2 * samples_per_item)
                for st, msg, vals, prefix in r['cands']:
                    key = (i, st, re.sub(r'\d+', '#', msg or ''))
                    seen_cand[key] += 1
                    if st == 'gap':
                        if seen_cand[key] <= 40:
                            gapruns.append((i, st, msg, vals))
                    elif seen_cand[key] <= 12:
                        todo.append((i, st, msg, vals))
                    else:
                        rep.unconfirmed.append((items[i], msg, None))
            if todo and not rep.violations:
                _confirm(rep, items, todo)
                if rep.violations and stop_on_violation:
                    stop = True
        for i in queues:
            per[i]['left'] = len(queues[i])
            if queues[i] and not (stop and rep.violations):
                rep.unfinished.append((items[i].name, len(queues[i])))
    # paths outside the engine's reach: one concrete run each
    if gapruns and not rep.violations:
        rs = replay([_batch_item(items[i], v, k) for k, (i, st, m, v) in enumerate(gapruns)])
        for (i, st, msg, v), r in zip(gapruns, rs):
            rep.gap_runs += 1
            if r['r'] == 'fail':
                rep.violations.append((items[i], v, r['msg']))
    # the same inputs on the unmodified code: encoding validation
    if not rep.violations:
        batch, meta = [], []
        for i, s in samples.items():
            for smp in (rnd.sample(s, samples_per_item) if len(s) > samples_per_item else s):
                batch.append(_batch_item(items[i], smp['values'], len(batch)))
                meta.append((i, smp))
        chunks = [list(range(k, len(batch), workers)) for k in range(min(workers, len(batch)))]
        with cf.ThreadPoolExecutor(workers) as tp:
            res = {}
            for rs in tp.map(lambda ix: replay([batch[k] for k in ix]), chunks):
                res.update({r['id']: r for r in rs})
        for k, (i, smp) in enumerate(meta):
            r = res[k]
            if r['r'] == 'fail':
                rep.violations.append((items[i], smp['values'], r['msg']))
            elif r['r'] != 'pass':
                rep.mismatch.append((items[i].name, smp['values'], r.get('r'), r.get('msg')))
            else:
                bad = [(lab, a, b) for (lab, a), (lab2, b) in zip(smp['obs'], r['obs'])
                       if lab == lab2 and a is not None and a != b]
                if bad or len(smp['obs']) != len(r['obs']):
                    rep.mismatch.append((items[i].name, smp['values'], 'observation', bad[:2]))
                else:
                    rep.validated += 1
    for i, it in enumerate(items):
        rep.items[it.name] = {'paths': per[i]['paths'], 'status': dict(per[i]['st']), 'cpu_s': round(per[i]['cpu'], 2),
                              'exhausted': per[i]['left'] == 0}
    return rep


def _confirm(rep, items, todo):
    rs = replay([_batch_item(items[i], v, k) for k, (i, st, m, v) in enumerate(todo)])
    for (i, st, msg, v), r in zip(todo, rs):
        if r['r'] == 'fail':
            rep.violations.append((items[i], v, r['msg']))
        else:
            rep.unconfirmed.append((items[i], '%s [%s]' % (msg, st), v))
