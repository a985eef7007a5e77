"""C07: rigid shapes that follow their poses"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import math
import random
from geom import Shape
from scenes import make_body, rand_body, make_world
from contactoracle import judge

ID = 'C07'
RULE = ('single bodies through hundreds of random moves, pose assignments and undone moves, and simulations of all scene kinds '
        '(with rejected steps, with and without position correction); after every operation the world vertices are compared '
        'with the shape the user described, put at the reported pose, and after every step all contacts with those of the '
        'reference shapes there; distinct = shape or scene, non-trivial when bodies turned')
ASSUME = ['rounding allowance 1e-9 of the body size plus 1e-12 of its coordinates']


def gen(rng, tier):
    n = 300 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        out.append({'fam': 'ops', 'seed': rng.randrange(2 ** 31), 'ops': 120 if tier == 'quick' else 400})
    for c in sim.workload(rng, tier, 100 if tier == 'quick' else 3000, kinds=sim.KINDS + ['linkage', 'free']):
        c['fam'] = 'sim'
        c['post_stab'] = rng.random() < .3
        out.append(c)
    return out


def vertices(b):
    return np.stack([(v + b.pos).detach().numpy() for v in b.verts])


def pose_ok(r, b, S, p, what):
    """The body's geometry at the pose p (which it must also report)."""
    r.events += 1
    q = b.p.detach().numpy()
    size = S.extent
    tol = 1e-9 * size + 1e-12 * (np.abs(q[1:]).max() + size * (1 + abs(q[0])))
    if p is not None:
        e = np.abs(q - p) / np.array([1., size, size])
        r.maxi('pose error', e.max())
        if np.abs(q[1:] - p[1:]).max() > 10 * tol or abs(q[0] - p[0]) > 1e-9 * (1 + abs(p[0])):
            r.fail('%s: the body is at %s instead of %s' % (what, q.tolist(), p.tolist()))
            return False
    if abs(float(b.rot) - q[0]) > 0 or np.abs(b.pos.detach().numpy() - q[1:]).max() > 0:
        r.fail('%s: angle and position %s %s disagree with the pose %s' % (what, b.rot.tolist(), b.pos.tolist(), q.tolist()))
        return False
    if S.t == 'circle':
        if float(b.rad) != S.rad:
            r.fail('%s: the radius became %g' % (what, float(b.rad)))
            return False
        return True
    V, R = vertices(b), S.verts(q)
    d = max(np.linalg.norm(R - v, axis=1).min() for v in V)
    d = max(d, max(np.linalg.norm(V - v, axis=1).min() for v in R)) if len(V) == len(R) else 1e9
    r.maxi('vertex error / tolerance', d / tol)
    if d > tol:
        r.fail('%s: a vertex is %.4g from where the pose puts it' % (what, d), kind=S.t, pose=q)
        return False
    return True


def run(case, r):
    if case['fam'] == 'ops':
        return run_ops(case, r)
    spec = case['scene']
    r.key = [spec['kind'], spec['bodies'][-1], case['post_stab']]
    L = spec.get('world', {}).get('eps', .1) / .1

    def monitor(st, ref, w):
        if r.violations:
            return
        for i, b in enumerate(w.bodies):
            if not pose_ok(r, b, ref.shapes[i], None, 'step %d, body %d' % (st.i, i)):
                return
        if np.abs(st.s1.p[:, 0] - st.s0.p[:, 0]).max() > 1e-3:
            r.nontrivial = True
        if len(st.solves) > 1:
            r.count('steps with rejected attempts')
        k = len(r.violations)
        judge(r, ref.shapes, st.s1.p, ref.excl, st.s1.contacts, w.eps, 1e-7 * L + 1e-11 * np.abs(st.s1.p).max())
        if len(r.violations) > k:
            r.violations[-1]['what'] = 'step %d: ' % st.i + r.violations[-1]['what']
        r.count('contacts judged', len(st.s1.contacts))
    sim.simulate(case, monitor, post_stab=case['post_stab'])


def run_ops(case, r):
    import torch
    rng = random.Random(case['seed'])
    scale = rng.choice([.1, 1., 1., 10.])
    spec = rand_body(rng, rng.uniform(-300, 300), rng.uniform(-300, 300), size=(5 * scale, 30 * scale), rot=rng.random() < .8)
    S = Shape(spec)
    b = make_body(spec)
    r.key = [spec]
    r.nontrivial = True
    T = lambda v: torch.tensor(v, dtype=torch.double)
    p = b.p.detach().numpy().copy()
    if not pose_ok(r, b, S, None, 'creation'):
        return
    hist = []
    for k in range(case['ops']):
        op = rng.choice(['move', 'move', 'move', 'turn', 'set', 'back', 'shift', 'spin', 'same', 'tiny'])
        if op in ('move', 'spin', 'tiny'):
            m = {'move': 5., 'spin': 60., 'tiny': 1e-9}[op]
            v = [rng.uniform(-m, m), rng.uniform(-90, 90), rng.uniform(-90, 90)]
            dt = rng.choice([1 / 30., 1 / 60., .3, 1e-6, 0.])
            b.v = T(v)
            hist.append(p)
            b.move(dt)
            p = p + np.array(v) * dt
        else:
            if op == 'turn':
                q = p + np.array([rng.choice([math.pi, -math.pi / 2, rng.uniform(-9, 9), 2 * math.pi]), 0, 0])
            elif op == 'set':
                q = np.array([rng.uniform(-9, 9), rng.uniform(-500, 500), rng.uniform(-500, 500)])
            elif op == 'shift':
                q = p + np.array([0, rng.uniform(-9, 9), rng.uniform(-9, 9)])
            elif op == 'same':
                q = p.copy()
            else:
                q = hist.pop() if hist else p.copy()
            b.set_p(T(q.tolist()))
            p = q
        r.count('operations ' + S.t)
        if not pose_ok(r, b, S, p, 'operation %d (%s)' % (k, op)):
            return


NEED = {'operations circle': 500, 'operations rect': 500, 'operations hull': 500, 'contacts judged': 500, 'steps with rejected attempts': 30}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
