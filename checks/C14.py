"""C14: time stepping"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import random
from phys import Ref, Snap, Stop, monitor_engine, npv
from scenes import make_world

ID = 'C14'
RULE = ('random colliding scenes and demos, plain and fixed-length steps, strict and tolerant mode, with and without position '
        'correction; elapsed time, rejected attempts (their end poses re-created and measured with reference geometry) and '
        'bookkeeping of time after every step; whole runs repeated with the time step that was accepted in the end, which '
        'must give the same state; distinct = scene and mode, non-trivial when an attempt was rejected')
ASSUME = ['the engine is asked for velocities once per attempt (seen through the public engine argument)',
          'strict mode may need arbitrarily many attempts']
MODES = ['plain', 'plain', 'twin', 'twin', 'fixed', 'fixed-twin', 'tolerant']


def gen(rng, tier):
    n = 280 if tier == 'quick' else 6000
    out = sim.workload(rng, tier, n, kinds=['collide', 'floor', 'box', 'linkage', 'chain', 'mixed', 'stack', 'floor', 'central'])
    for i, c in enumerate(out):
        c['mode'] = MODES[i % len(MODES)]
        c['post_stab'] = rng.random() < .2
        c['which'] = rng.randrange(3)
        w = c['scene'].setdefault('world', {})
        if rng.random() < .3:
            w['dt'] = rng.choice([1 / 10., 1 / 7.])
    for i in range(n // 20):
        out.append({'scene': late(rng), 'mode': ['fixed', 'fixed', 'fixed-twin', 'plain'][i % 4], 'post_stab': False, 'which': 0,
                    'steps': 3, 'unit': 1.})
    return out


def late(rng):
    """A disc that reaches a wall in the last moment of a step: the step is made
    of ever shorter ones."""
    u = rng.uniform(1, 8)
    v, dt = rng.uniform(30, 200), rng.choice([1 / 30., 1 / 60., .1])
    rest = v * dt * 10 ** -u
    th, R, H = rng.uniform(-3, 3), rng.uniform(5, 30), rng.uniform(10, 20)
    n = np.array([np.cos(th), np.sin(th)])
    # touches at the time (k + 1 - 10**-u) dt
    k = rng.randrange(2)
    gap = v * dt * (k + 1) - rest
    pos = n * (H + R + gap)
    return {'kind': 'late', 'bodies': [
        {'t': 'circle', 'pos': pos.tolist(), 'rad': R, 'vel': [rng.uniform(-2, 2)] + (-v * n).tolist(), 'e': rng.uniform(0, 1),
         'mu': rng.uniform(0, 1), 'mass': rng.uniform(.5, 5)},
        {'t': 'rect', 'pos': [th, 0., 0.], 'dims': [2 * H, 200.], 'e': rng.uniform(0, 1), 'mu': .5}],
        'joints': [{'k': 'total', 'b1': 1}] if rng.random() < .5 else [],
        'world': {'dt': dt, 'eps': rest * rng.uniform(.05, 1), 'tol': rest * 1e-3}}


def start(case, log, limit=250, **kw):
    random.seed(12345)
    w = make_world(case['scene'], engine=monitor_engine(log, limit=limit), post_stab=case['post_stab'],
                   strict_no_penetration=case['mode'] != 'tolerant', **kw)
    return w


def states_differ(a, b, L):
    """Relative difference of two end states."""
    if len(a.contacts) != len(b.contacts):
        return float('inf')
    sv = 1e-9 + np.abs(a.v).max()
    return max(np.abs(a.p - b.p).max() / L / 10, np.abs(a.v - b.v).max() / sv, abs(a.t - b.t))


def run(case, r):
    spec, mode = case['scene'], case['mode']
    fixed = mode.startswith('fixed')
    r.key = [spec['kind'], mode, case['post_stab'], spec['bodies'][-1]]
    L = case.get('unit') or spec.get('world', {}).get('eps', .1) / .1
    ref = Ref(spec)
    log = []
    w = start(case, log)
    tol = w.tol
    s0 = Snap(w)
    rolled = []
    trace = [s0]
    try:
        for i in range(case['steps']):
            l0 = len(log)
            D = float(w.dt)
            w.step(fixed_dt=True) if fixed else w.step()
            s1 = Snap(w)
            A = log[l0:]
            trace.append(s1)
            r.events += 1
            el = s1.t - s0.t
            vb = np.concatenate([npv(b.v) for b in w.bodies])
            if np.abs(vb - s1.v).max() > 0:
                r.fail('step %d: velocities of the bodies and of the world disagree after the step' % i)
            if not A:
                r.fail('step %d: time advanced by %g without any velocities being solved for' % (i, el))
                return
            if fixed:
                r.count('fixed-length steps')
                if spec['kind'] == 'late':
                    r.maxi('shortest part of a step, orders below the step', np.log10(D / min(a['dt'] for a in A)))
                if abs(el - D) > 1e-12:
                    r.fail('step %d: a fixed-length step of %.17g took %.17g' % (i, D, el))
                    return
            # split into sub-steps: attempts that begin at the same time
            subs = []
            for a in A:
                if subs and subs[-1][-1]['t'] == a['t']:
                    subs[-1].append(a)
                else:
                    subs.append([a])
            if not fixed and len(subs) != 1:
                r.fail('step %d: velocities solved at several times within one step' % i)
                return
            for k, S in enumerate(subs):
                t1 = subs[k + 1][0]['t'] if k + 1 < len(subs) else s1.t
                want = s0.t + D - S[0]['t'] if fixed else D
                sub(r, i, ref, S, t1 - S[0]['t'], want, mode, tol, D, L)
                if r.violations:
                    return
            if len(A) > len(subs):
                r.nontrivial = True
                r.count('steps with rejected attempts ' + mode)
                rolled.append((i, s0, s1, D, A))
            s0 = s1
    except Stop:
        r.count('stopped: too many attempts')
    if not rolled:
        return
    if mode == 'twin':
        i, s0, s1, D, A = rolled[min(case['which'], len(rolled) - 1)]
        w2 = start(case, [])
        for _ in range(i):
            w2.step()
        if not np.array_equal(Snap(w2).p, s0.p):
            r.fail('the same simulation run twice differs before step %d' % i)
            return
        w2.dt = s1.t - s0.t
        w2.step()
        compare(r, w2, s1, 'step %d, shortened to %g, ends in another state than a step of that length' % (i, w2.dt), L)
    elif mode == 'fixed-twin':
        i = rolled[0][0]
        w2 = start(case, [], limit=600)
        for k in range(i + 1):
            end = w2.t + w.dt
            n = 0
            while end - w2.t > 0 and n < 200:
                w2.dt = end - w2.t
                w2.step()
                n += 1
        compare(r, w2, rolled[0][2], 'fixed-length step %d ends in another state than the steps it is made of' % i, L)


def compare(r, w2, s1, what, L):
    d = states_differ(s1, Snap(w2), L)
    r.events += 1
    r.count('twin comparisons')
    if d == float('inf'):
        # a contact at the very edge of the margin may be seen by one of them only
        d = max(np.abs(s1.p - Snap(w2).p).max() / L / 10, np.abs(s1.v - Snap(w2).v).max() / (1e-9 + np.abs(s1.v).max()))
    r.maxi('twin difference', d)
    if d > 1e-9:
        r.fail('%s (difference %.3g)' % (what, d), p=s1.p, q=Snap(w2).p)


def sub(r, i, ref, S, el, want, mode, tol, D, L):
    """One variable-length step: S are its attempts, el the time it took."""
    r.count('attempts', len(S))
    # time read back from world.t has rounding
    k = np.log2(want / el) if el > 0 else np.inf
    if not abs(k - round(k)) < 1e-6 * 2. ** min(k, 30) or round(k) < 0:
        if want > 1e-13:
            r.fail('step %d took %.17g of the %.17g it was given: not a halving' % (i, el, want))
        return
    k = int(round(k))
    r.count('accepted after %s halvings' % (k if k < 4 else '>=4'))
    if mode == 'tolerant' and el < want / 8 * (1 - 1e-9):
        r.fail('step %d: in tolerant mode the step was shortened to %g of %g' % (i, el, want))
    if len(S) != k + 1:
        r.fail('step %d: %d attempts for a step halved %d times' % (i, len(S), k))
        return
    p0, v0 = S[0]['p0'], S[0]['v0']
    for j, a in enumerate(S):
        if np.abs(a['p0'] - p0).max() > 1e-9 * (L + np.abs(p0).max()) or np.abs(a['v0'] - v0).max() > 1e-9 * (1e-9 + np.abs(v0).max()):
            r.fail('step %d: attempt %d does not start from the state at the start of the step' % (i, j))
            return
        if a['nc'] != S[0]['nc']:
            r.fail('step %d: attempt %d starts with %d contacts, the step with %d' % (i, j, a['nc'], S[0]['nc']))
            return
        if abs(a['dt'] - want / 2 ** j) > 1e-9 * want:
            r.fail('step %d: attempt %d solves for a time step of %g, expected %g' % (i, j, a['dt'], want / 2 ** j))
            return
        if j < k:
            p = a['p0'] + a['v'].reshape(-1, 3) * a['dt']
            d, pair = ref.overlap(p)
            r.count('rejected attempts')
            if d <= tol - 1e-8 * L:
                r.fail('step %d: attempt %d (time step %g) was rejected though no bodies overlap at its end (deepest %.3g)' % (
                    i, j, a['dt'], d))
                return
    if mode != 'tolerant' or k < 3:
        a = S[-1]
        d, pair = ref.overlap(a['p0'] + a['v'].reshape(-1, 3) * a['dt'])
        r.count('accepted attempts judged ' + mode)
        if d > tol + 1e-6 * L:
            r.fail('step %d: accepted after %d halvings though bodies %s overlap by %.3g at its end' % (i, k, list(pair), d))


NEED = {'rejected attempts': 200, 'twin comparisons': 30, 'fixed-length steps': 300, 'steps with rejected attempts tolerant': 10}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
