"""Shared runner of the runtime-monitoring checks.

A check is a module with
    ID            property id
    RULE          how cases are made and what makes one non-trivial
    ASSUME        list of assumptions
    gen(rng, tier) -> list of JSON-able case specs
    run(spec)     -> Result  (executes the real code under the monitor)
run() is executed in forked worker processes, one case at a time, with a
wall-clock watchdog; a watchdog expiry is inconclusive, never a violation.
"""
import os
import sys
import json
import time
import random
import signal
import traceback
import hashlib
import multiprocessing as mp
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

for k, v in (('OMP_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'),
             ('SDL_VIDEODRIVER', 'dummy'), ('SDL_AUDIODRIVER', 'dummy'),
             ('PYGAME_HIDE_SUPPORT_PROMPT', '1'), ('MPLBACKEND', 'Agg')):
    os.environ[k] = v
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.filterwarnings('ignore')


class Skip(Exception):
    """The case turned out not to be in the domain / monitor not reached."""


class Timeout(BaseException):
    pass


class Result:
    """What one monitored execution showed."""
    def __init__(self):
        self.violations = []     # list of dicts {what, ...}
        self.events = 0          # monitor evaluations
        self.counters = {}
        self.nontrivial = False
        self.key = None          # identifies the distinct situation seen
        self.note = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maxi(self, name, v):
        name = 'max ' + name
        if v != v:
            return
        if v > self.counters.get(name, float('-inf')):
            self.counters[name] = float(v)

    def fail(self, what, **kw):
        if len(self.violations) < 5:
            d = {'what': what}
            d.update({k: jsonable(v) for k, v in kw.items()})
            self.violations.append(d)

    def asdict(self):
        return {'violations': self.violations, 'events': self.events, 'counters': self.counters,
                'nontrivial': self.nontrivial, 'key': self.key, 'note': self.note}


def jsonable(v):
    try:
        import torch
        if isinstance(v, torch.Tensor):
            return jsonable(v.detach().cpu().numpy())
    except ImportError:
        pass
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


_fired = [0]


def _alarm(sig, frm):
    _fired[0] += 1
    raise Timeout()


def in_repo(tb):
    """True if the exception was raised while the code under test was running."""
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, spec, limit):
    import torch
    r = Result()
    random.seed(12345)
    torch.manual_seed(12345)
    old = signal.signal(signal.SIGALRM, _alarm)
    # repeats: the broad phase of the library swallows whatever is raised in its callback
    _fired[0] = 0
    signal.setitimer(signal.ITIMER_REAL, limit, 5.)
    try:
        out = mod.run(spec, r)
        status = 'ok'
    except Skip as e:
        status = 'skip'
        r.note = str(e)
    except Timeout:
        status = 'timeout'
    except Exception as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if in_repo(e.__traceback__):
            status = 'ok'
            r.fail('the library raised %s: %s' % (type(e).__name__, str(e)[:300]), traceback=tb)
        else:
            status = 'error'
            r.note = tb
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if _fired[0]:
        status = 'timeout'
        r.violations.clear()
        if getattr(mod, 'HANG', None):
            r.fail('%s: no answer after %d s' % (mod.HANG, limit))
    d = r.asdict()
    d['status'] = status
    return d


def _worker(mod, conn, limit):
    import torch
    torch.set_num_threads(1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # keep the library's chatter off our stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        i, spec = msg
        t0 = time.time()
        d = run_case(mod, spec, limit)
        d['wall'] = time.time() - t0
        conn.send((i, d))
    os._exit(0)


def run_pool(mod, specs, nproc, limit, deadline, stop_after=40):
    """Run the cases on forked workers.  Survives a worker that dies."""
    ctx = mp.get_context('fork')
    results = [None] * len(specs)
    todo = list(range(len(specs)))[::-1]
    retried = set()
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(mod, b, limit), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, time.time()]
        return a

    def feed(c):
        if not todo or time.time() > deadline or nviol[0] >= stop_after:
            try:
                c.send(None)
            except (BrokenPipeError, OSError):
                pass
            workers[c][0].join(5)
            if workers[c][0].is_alive():
                workers[c][0].kill()
            del workers[c]
            c.close()
            return
        i = todo.pop()
        workers[c][1] = i
        workers[c][2] = time.time()
        c.send((i, specs[i]))

    nviol = [0]
    for _ in range(min(nproc, len(specs))):
        feed(spawn())
    while workers:
        ready = mpwait(list(workers), timeout=1.0)
        for c in ready:
            p, i, _ = workers[c]
            try:
                j, d = c.recv()
            except (EOFError, OSError):
                p.join(5)
                del workers[c]
                c.close()
                if i is not None:
                    if i in retried:
                        results[i] = {'status': 'ok', 'violations': [{
                            'what': 'the process died twice while running this case (exit %s)' % p.exitcode}],
                            'events': 0, 'counters': {}, 'nontrivial': True, 'key': None, 'note': None, 'wall': 0}
                        nviol[0] += 1
                    else:
                        retried.add(i)
                        todo.append(i)
                if todo:
                    feed(spawn())
                continue
            results[j] = d
            if any(not v.get('class') for v in d['violations']):
                nviol[0] += 1
            workers[c][1] = None
            feed(c)
        # a case stuck in native code: the alarm cannot fire there
        for c in list(workers):
            p, i, t = workers[c]
            if i is not None and time.time() - t > limit + 30:
                p.kill()
                p.join()
                del workers[c]
                c.close()
                results[i] = {'status': 'timeout', 'violations': [], 'events': 0, 'counters': {},
                              'nontrivial': False, 'key': None, 'note': 'killed', 'wall': 0}
                if todo:
                    feed(spawn())
    return results


def known_findings():
    """Lines of KNOWN-FINDINGS.json: {"property","kind":"finding"/"fixed","match",...}"""
    p = os.path.join(VERIF, 'KNOWN-FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['entries'] if f.get('kind') == 'finding']


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = getattr(mod, 'LIMIT', {}).get(tier, 60 if tier == 'quick' else 240)

    if a.replay:
        doc = json.load(open(a.replay))
        d = run_case(mod, doc['spec'], 600)
        print(json.dumps(d, indent=1)[:8000])
        if d['violations']:
            print('VIOLATION property=%s replay=%s' % (mod.ID, a.replay))
            sys.exit(1)
        sys.exit(0 if d['status'] == 'ok' else 2)

    import torch
    torch.set_num_threads(1)
    import lcp_physics.physics.world  # noqa: import the tree under test before forking
    rng = random.Random('%s/%s/%d' % (mod.ID, tier, seed))
    specs = mod.gen(rng, tier)
    if a.only is not None:
        d = run_case(mod, specs[a.only], 600)
        print(json.dumps(specs[a.only])[:3000])
        print(json.dumps(d, indent=1)[:8000])
        sys.exit(0)
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    budget = float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 6 * 3600))
    results = run_pool(mod, specs, nproc, limit, t0 + budget)

    counters = {}
    keys = set()
    n_eval = n_events = n_non = 0
    status = {}
    bad = []
    errors = []
    for i, d in enumerate(results):
        if d is None:
            status['not run'] = status.get('not run', 0) + 1
            continue
        status[d['status']] = status.get(d['status'], 0) + 1
        if d['status'] == 'error':
            errors.append((i, d['note']))
        if d['status'] == 'ok' or d['violations']:
            n_eval += 1
        n_events += d['events']
        for k, v in d['counters'].items():
            if k.startswith('max '):
                counters[k] = max(counters.get(k, v), v)
            else:
                counters[k] = counters.get(k, 0) + v
        if d['nontrivial']:
            n_non += 1
            keys.add(json.dumps(d['key'], sort_keys=True) if d['key'] is not None else
                     hashlib.sha1(json.dumps(specs[i], sort_keys=True).encode()).hexdigest())
        if d['violations']:
            bad.append(i)

    for i, what in (mod.aggregate(specs, results, counters) if hasattr(mod, 'aggregate') else ()):
        results[i]['violations'].append({'what': what})
        bad.append(i)
    known = [f for f in known_findings() if f['property'] == mod.ID]
    new = []
    for i in bad:
        kf = None
        for f in known:
            if all(v.get('class') == f['match'] for v in results[i]['violations']):
                kf = f
        if kf is None:
            new.append(i)
        else:
            counters['known finding ' + kf['match']] = counters.get('known finding ' + kf['match'], 0) + 1
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, f['what']))

    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    paths = []
    for i in new[:5]:
        p = os.path.join(rdir, '%s-%s-%d-%d.json' % (mod.ID, tier, seed, i))
        json.dump({'property': mod.ID, 'spec': specs[i], 'violations': results[i]['violations']},
                  open(p, 'w'), indent=1)
        paths.append(p)

    ok_idx = [i for i, d in enumerate(results) if d and d['nontrivial']]
    samples = []
    for i in ok_idx[:1] + ok_idx[len(ok_idx) // 2:len(ok_idx) // 2 + 1]:
        s = json.dumps(specs[i])
        samples.append({'case': specs[i] if len(s) < 3000 else s[:3000] + '...',
                        'observed': {'events': results[i]['events'], 'counters': results[i]['counters']}})
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': n_eval, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
                       'samples': samples, 'monitor_events': n_events,
                       'observed': {k: counters[k] for k in sorted(counters)},
                       'case_status': status},
          'assumptions': list(getattr(mod, 'ASSUME', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w'), indent=1)

    print('%s tier=%s seed=%d: %d cases %s, %d monitor events, %d distinct non-trivial, %.1fs' % (
        mod.ID, tier, seed, len(specs), status, n_events, len(keys), time.time() - t0))
    if a.verbose or errors:
        for k in sorted(counters):
            print('   %-40s %s' % (k, counters[k]))
    if a.verbose:
        w = sorted([(d['wall'], i) for i, d in enumerate(results) if d], reverse=True)[:5]
        print('   slowest', w)
        for i in new[:6]:
            print('   case', i, [v['what'][:250] for v in results[i]['violations']][:3])
        for i, d in enumerate(results):
            if d and d['status'] in ('timeout', 'skip') and a.verbose and i < 2000:
                if d['status'] == 'timeout':
                    print('   timeout case', i)
    if new:
        for p, i in zip(paths, new):
            print('  ', results[i]['violations'][0]['what'][:300])
        print('VIOLATION property=%s replay=%s' % (mod.ID, paths[0]))
        sys.exit(1)
    if errors:
        print('harness error in %d cases, first: case %d\n%s' % (len(errors), errors[0][0], errors[0][1]))
        sys.exit(2)
    need = getattr(mod, 'NEED', {})
    missing = [k for k, v in need.items() if counters.get(k, 0) < v]
    if n_events == 0 or len(keys) < 2 or missing:
        print('INCONCLUSIVE: the monitor was not reached (%s)' % (missing or 'no events'))
        sys.exit(2)
    sys.exit(0)
