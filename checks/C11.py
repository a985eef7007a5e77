"""C11: constraints hold at position level."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim

from geom import rot

ID = 'C11'
RULE = ('random scenes with axis, rotation, total, revolute and fixed joints, with and without post-stabilization; after every '
        'step the held coordinates, the world positions of the two anchor points of every hinge and the relative pose of '
        'fixed pairs are compared with their initial values, against the accumulated second-order integration error; '
        'distinct = scene and mode')
ASSUME = ['explicit integration: anchors may drift by the sum of half squared rotation angles times the arm per step']


def gen(rng, tier):
    n = 200 if tier == 'quick' else 4000
    out = sim.workload(rng, tier, n, kinds=['chain', 'mixed', 'linkage', 'mixed', 'box']) + sim.spinners(rng, n // 12)
    for c in out:
        c['post_stab'] = rng.random() < .4
    return out


def run(case, r):
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1], case['post_stab']]
    ps = case['post_stab']
    L = case['scene'].get('world', {}).get('eps', .1) / .1
    state = {}
    HELD = {'x': (1,), 'y': (2,), 'rot': (0,), 'total': (0, 1, 2)}

    def monitor(st, ref, w):
        # angles turned by the integration and, if any, by the stabilization
        turn = np.abs(st.s1.v[::3]) * st.dt
        extra = np.abs(st.s1.p[:, 0] - st.s0.p[:, 0] - st.s1.v[::3] * st.dt) if ps else 0.
        dth = turn + extra
        for k, j in enumerate(ref.joints):
            a, a0 = st.s1.p[j['b1']], ref.p0[j['b1']]
            r.events += 1
            if j['k'] in HELD:
                for q in HELD[j['k']]:
                    e = abs(a[q] - a0[q]) / (1 if q == 0 else L)
                    r.maxi('drift of a held coordinate', e)
                    r.count('held coordinates')
                    if e > 1e-7:
                        r.fail('step %d: body %d is held by a %s constraint but moved by %.3g' % (st.i, j['b1'], j['k'], a[q] - a0[q]))
                continue
            r.nontrivial = True
            r.count('joint steps' + (' post-stabilized' if ps else ''))
            if j['k'] == 'joint':
                x1 = a[1:] + rot(a[0] - j['th1']) @ j['r1']
                r1 = np.linalg.norm(j['r1'])
                if j.get('b2') is None:
                    x2, r2, t2 = np.array(j['pos'], float), 0., 0.
                else:
                    b = st.s1.p[j['b2']]
                    x2 = b[1:] + rot(b[0] - j['th2']) @ j['r2']
                    r2, t2 = np.linalg.norm(j['r2']), dth[j['b2']]
                d = np.linalg.norm(x1 - x2)
                inc = (r1 * dth[j['b1']] ** 2 + r2 * t2 ** 2) / 2
                old = state.get(k, 0.)
                # what was off may rotate with body 2
                bound = old * np.sqrt(1 + t2 ** 2) + inc
            else:
                b, b0 = st.s1.p[j['b2']], ref.p0[j['b2']]
                # turned by the rotation of body 1
                rel = rot(a0[0] - a[0]) @ (b[1:] - a[1:])
                d = np.linalg.norm(rel - (b0[1:] - a0[1:]))
                arm = np.linalg.norm(b[1:] - a[1:])
                t = dth[j['b1']]
                bound = state.get(k, 0.) + arm * t ** 2 / 2
                da = abs((b[0] - a[0]) - (b0[0] - a0[0]))
                r.maxi('relative rotation of fixed pairs', da)
                if da > 1e-7:
                    r.fail('step %d: a fixed pair turned by %.3g relative to each other' % (st.i, da))
            state[k] = bound
            lim = bound * 1.001 + 1e-7 * L
            if bound > 1e-4 * L:
                r.maxi('anchor drift / bound' + (' post-stabilized' if ps else ''), d / bound)
            if d > lim:
                r.fail('step %d: joint %d came apart by %.4g, integration error accounts for %.4g' % (st.i, k, d, lim), joint=j)
    sim.simulate(case, monitor, post_stab=ps)


NEED = {'held coordinates': 200, 'joint steps': 200, 'joint steps post-stabilized': 200}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
