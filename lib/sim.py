"""Runs a scene with the real World and shows every step to a monitor."""
import copy
import random
import numpy as np

from phys import Ref, Snap, Stop, monitor_engine, npv
from scenes import rand_body, init_pose, make_world, scene, demo, DEMOS, rescale, retime, shuffle_bodies

KINDS = ['floor', 'collide', 'box', 'chain', 'stack', 'mixed', 'crowd', 'central']


class Step:
    """One World.step() as seen from outside."""
    def __init__(self, i, s0, s1, solves):
        self.i, self.s0, self.s1, self.solves = i, s0, s1, solves
        self.dt = s1.t - s0.t
        self.end = None    # number of solves up to the end of this step


def workload(rng, tier, n, kinds=KINDS, demos=True, scales=True, steps=None, shapes=None, **opt):
    """n random scene cases (plus the demo scenes)."""
    out = []
    if demos:
        for d in DEMOS:
            g = demo(d, g=rng.choice([50., 100., 150.]))
            out.append({'scene': g, 'steps': steps or (60 if tier == 'quick' else 250)})
    for i in range(n):
        k = kinds[i % len(kinds)]
        o = dict(opt, kinds=shapes) if shapes else dict(opt)
        if k == 'box' and rng.random() < .3 and 'noforce' not in o:
            o['grav'] = 100.
        s = scene(rng, k, **o)
        w = s.setdefault('world', {})
        if rng.random() < .4:
            w['dt'] = rng.choice([1 / 100., 1 / 60., 1 / 20., 1 / 15.])
        if rng.random() < .3 and k != 'crowd':
            shuffle_bodies(s, rng)
        if 'mu' not in opt and rng.random() < .2:
            for b in s['bodies']:      # rough surfaces: coefficients above one
                if rng.random() < .5:
                    b['mu'] = rng.uniform(1, 4)
        if 'e' not in opt and rng.random() < .1:
            e = rng.choice([0., 1.])
            for b in s['bodies']:
                b['e'] = e
        if scales and rng.random() < .2:
            s = rescale(s, rng.choice([.001, .003, .01, .1, .3, 3., 30.]))
        if scales and rng.random() < .15:
            # speeds stay above 1e-3: the velocity solver works to an absolute accuracy
            s = retime(s, rng.choice([.1, 10, 100, 1000] if '*0' not in s.get('kind', '') else [.01, .1]))
        out.append({'scene': s, 'steps': steps or (60 if tier == 'quick' else 120)})
    return out


def simulate(case, monitor, limit=160, more=(), **wkw):
    """Step the scene; monitor(step, ref, world) is called after every step."""
    random.seed(12345)
    spec = case['scene']
    ref = Ref(spec)
    log = []
    w = make_world(spec, engine=monitor_engine(log, limit=limit, more=more), **wkw)
    try:
        s0 = Snap(w)
        for i in range(case['steps']):
            l0 = len(log)
            w.step()
            s1 = Snap(w)
            st = Step(i, s0, s1, log[l0:])
            st.end = len(log)
            monitor(st, ref, w)
            s0 = s1
    except Stop:
        pass
    return ref, w


def with_more_iterations(case, st, **wkw):
    """The step st as it would have been with a larger iteration limit of the
    velocity solver (None if that cannot be had)."""
    out = []

    def monitor(t, ref, w):
        if t.i == st.i:
            out.append(t)
            raise Stop()
    simulate(case, monitor, more=(st.end - 1,), **wkw)
    if not out or not np.array_equal(out[0].s1.v, st.s1.v):
        return None
    t = out[0]
    t.s1.v = t.solves[-1]['alt']
    return t


def rough(st, ref):
    """Friction coefficients above one: the velocity problem is far from
    monotone and the interior-point solver may stop short of a solution.  Not so
    where two circles with no other contact or joint meet: nothing couples there."""
    C = st.s0.contacts

    def alone(i):
        return ref.shapes[i].t == 'circle' and sum(i in c[4:6] for c in C) == 1 and not any(
            i in (j['b1'], j.get('b2')) for j in ref.spec.get('joints', ()))
    return any(ref.mu[c[4]] + ref.mu[c[5]] > 2 and not (alone(c[4]) and alone(c[5])) for c in C)


def budget_rule(specs, results, counters, fine, rate):
    """Bounds on the rate of small errors and of steps on which the iteration
    limit was too small."""
    out = []
    ev = sum(d['events'] for d in results if d)
    for k, lim, what in (('inexact steps', 3 + rate * ev, 'off by more than %g' % fine),
                         ('out of iterations', 2 + .001 * ev, 'wrong for lack of iterations')):
        n = counters.get(k, 0)
        if n > lim:
            i = max((i for i, d in enumerate(results) if d), key=lambda i: results[i]['counters'].get(k, 0))
            out.append((i, '%d of %d contact steps are %s' % (n, ev, what)))
    return out


def vscale(st, ref=None):
    """Speed scale of the step."""
    v = 1e-12 + np.abs(st.s0.v).max() + np.abs(st.s1.v).max()
    if ref is not None:
        v += st.dt * np.abs(ref.force(st.s0.t) / ref.Md).max()
    return v


def fine_engine(base=None, n=60):
    """The real engine with a larger iteration limit of its LCP solver."""
    from lcp_physics.physics.engines import PdipmEngine

    class Fine(base or PdipmEngine):
        def __init__(self):
            super().__init__(max_iter=n)
    return Fine


def extremes(rng, cases):
    """Some bodies perfectly smooth, rough, soft or elastic, meeting others that are not."""
    for c in cases:
        if rng.random() < .3:
            for b in c['scene']['bodies']:
                if rng.random() < .5:
                    b['mu'] = float(rng.choice([0, 0, 1]))
                if rng.random() < .3:
                    b['e'] = float(rng.choice([0, 1]))
    return cases


def spinners(rng, n):
    """Pinned bodies that turn fast and for many turns, either way."""
    out = []
    for i in range(n):
        b = rand_body(rng, rng.uniform(-200, 200), rng.uniform(-200, 200), size=(10, 30))
        p = init_pose(b)
        om = rng.choice([-1, 1]) * rng.uniform(15, 45)
        r = [rng.uniform(-20, 20), rng.uniform(-20, 20)]
        b['vel'] = [om, -om * r[1], om * r[0]]
        s = {'kind': 'spinner', 'bodies': [b], 'joints': [{'k': 'joint', 'b1': 0, 'b2': None, 'pos': [p[1] - r[0], p[2] - r[1]]}],
             'world': {'dt': rng.choice([1 / 30., 1 / 60.])}}
        if rng.random() < .5:       # on a body that moves on
            c = rand_body(rng, p[1] - r[0] + rng.uniform(-9, 9), p[2] - r[1] + rng.uniform(-9, 9), size=(10, 30))
            c['vel'] = [-om * rng.random(), 0., 0.]
            s['bodies'].append(c)
            s['joints'][0]['b2'] = 1
            s['no_contact'] = [[0, 1]]
            if rng.random() < .5:
                s['bodies'].reverse()
                s['joints'][0].update(b1=1, b2=0)
        out.append({'scene': s, 'steps': rng.randint(50, 90)})
    return out
