"""C05: bodies do not overlap at the end of a step (strict mode)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim

from geom import Shape, separation, area_centroid
from scenes import make_world, scene, rand_body, init_pose, min_separation

ID = 'C05'
RULE = ('random scenes of all kinds plus the demos, in strict mode without post-stabilization, contact tolerances 1e-6 and 1e-3; '
        'every pair of shapes measured with reference geometry after every step; also worlds built from overlapping and '
        'from merely touching shapes; distinct = scene, non-trivial when a pair came within the contact margin')
ASSUME = ['pairs declared not to collide are not measured', 'tunnelling within one step (no overlap at its end) is not judged']


def pointed(rng):
    """A turned polygon with a far tip, and the direction of the tip."""
    l, w = rng.uniform(20, 60), rng.uniform(2, 12)
    th, rot = rng.uniform(0, 6.28), rng.uniform(-3, 3)
    V = [[l, 0.], [0., w], [0., -w]] if rng.random() < .5 else [[l, 0.], [0., w], [-w, 0.], [0., -w]]
    V = (np.array(V) @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])).tolist()
    c = area_centroid(np.array(V))[1]
    return {'t': 'hull', 'verts': V, 'ref': [-c[0], -c[1]], 'rot': rot, 'vel': [0., 0., 0.], 'mass': 1., 'e': rng.random(), 'mu': rng.random()}, th + rot


def tip(rng):
    """A ball meeting the tip of a turning polygon."""
    a, th = pointed(rng)
    w, T, v, rad = rng.uniform(-3, 3), rng.uniform(.1, .6), rng.uniform(5, 60), rng.uniform(3, 15)
    a['vel'] = [w, 0., 0.]
    L = max(np.hypot(*(np.array(q) - area_centroid(np.array(a['verts']))[1])) for q in a['verts'])
    u = np.array([np.cos(th + w * T), np.sin(th + w * T)])
    d = L + rad + v * T
    return {'kind': 'tip', 'bodies': [a, {'t': 'circle', 'pos': (d * u).tolist(), 'rad': rad, 'vel': (-v * u).tolist(),
                                          'mass': rng.uniform(.5, 5), 'e': rng.random(), 'mu': rng.random()}], 'world': {}}


def gen(rng, tier):
    n = 200 if tier == 'quick' else 4000
    out = sim.workload(rng, tier, n, kinds=sim.KINDS + ['linkage'])
    for _ in range(n // 5):
        while True:
            c = tip(rng)
            if min_separation(c) > .2:
                break
        out.append(dict(out[0], scene=c))
    for c in out:
        if rng.random() < .2:
            c['scene'].setdefault('world', {})['tol'] = 1e-3
    for _ in range(n):
        # two shapes put close together, overlapping or not
        while True:
            a = rand_body(rng, 0, 0)
            th, d = rng.uniform(0, 6.28), rng.uniform(5, 90)
            if rng.random() < .4:
                a, th = pointed(rng)
                th += rng.uniform(-.2, .2)
                d = rng.uniform(30, 110)
            b = rand_body(rng, d * np.cos(th), d * np.sin(th))
            s = min_separation({'bodies': [a, b]})
            # bring the second one to a chosen gap along the line of centers
            g = rng.choice([-5, -1, -.05, -.001, .001, .05, .5]) * rng.uniform(.5, 1)
            for _ in range(60):
                s = min_separation({'bodies': [a, b]})
                if abs(s - g) < 1e-9:
                    break
                for q in ('pos', 'ref'):
                    if q in b:
                        b[q] = [v + (g - s) * u for v, u in zip(b[q], [0, np.cos(th), np.sin(th)][-len(b[q]):])]
            if abs(s - g) < 1e-6:
                break
        out.append({'pair': [a, b], 'gap': s})
    return out


def run(case, r):
    if 'pair' in case:
        r.events += 1
        r.key = [case['pair'][0]['t'], case['pair'][1]['t'], round(case['gap'], 6)]
        r.nontrivial = True
        try:
            make_world({'bodies': case['pair']})
            ok = True
        except AssertionError:
            ok = False
        if ok and case['gap'] < 0:
            r.fail('a world whose bodies overlap by %.3g at the start is accepted in strict mode' % -case['gap'])
        if not ok and case['gap'] > 0:
            r.fail('a world whose bodies are %.3g apart is refused' % case['gap'])
        r.count('starts accepted' if ok else 'starts refused')
        return
    L = case['scene'].get('world', {}).get('eps', .1) / .1
    tol = case['scene'].get('world', {}).get('tol', 1e-6)
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]

    def monitor(st, ref, w):
        r.events += 1
        d, pair = ref.overlap(st.s1.p)
        if d > -.1 * L:
            r.count('steps ending within the contact margin')
            r.nontrivial = True
        if len(st.solves) > 1:
            r.count('steps shortened')
        r.maxi('overlap in tolerances', d / tol)
        if d > tol * (1 + 1e-3) + 1e-9 * L:
            r.fail('step %d: bodies %s overlap by %.3g' % (st.i, pair, d), poses=st.s1.p)
    sim.simulate(case, monitor)


NEED = {'steps ending within the contact margin': 100, 'steps shortened': 30, 'starts refused': 20, 'starts accepted': 20}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
