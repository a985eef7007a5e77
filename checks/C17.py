"""C17: gradients of simulations"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import copy
import math
import random
from phys import Stop, contacts_np, monitor_engine
from scenes import make_world, make_body, mass_of, rescale
from geom import Shape

ID = 'C17'
RULE = ('random scenes of all kinds simulated through collisions, sliding, resting and joint motion, a random linear functional of the '
        'final state differentiated by back-propagation and by finite differences of the same simulation with respect to random '
        'subsets of all parameters; and contact manifolds of two bodies differentiated with respect to their poses, sizes and '
        'vertices; distinct = scene, parameters; non-trivial when a derivative was compared')
ASSUME = ['judged only where forward, backward and central differences at two widths agree and the sequence of contacts and step lengths '
          'is the same for all of them (elsewhere the simulation has no derivative or the difference quotient no meaning)',
          'the LCP solver is given 60 iterations', 'a joint anchored exactly at the centre of a body has no polar angle to differentiate',
          'the initial angle and an angle-free pose of circles do not matter']
KINDS = ['collide', 'floor', 'linkage', 'stack', 'mixed', 'chain', 'box', 'collide']


def gen(rng, tier):
    n = 480 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        if i % 3 == 2:
            out.append({'mode': 'geometry', 'seed': rng.randrange(2 ** 31)})
            continue
        k = KINDS[(i // 3) % len(KINDS)]
        c = sim.workload(rng, tier, 1, kinds=[k], demos=False, scales=False)[0]
        c['steps'] = {'collide': 26, 'linkage': 30, 'box': 14, 'floor': 26}.get(k, 20) - rng.randint(0, 8)
        if rng.random() < .25:
            for b in c['scene']['bodies']:      # start without rotation, axis aligned
                b['vel'] = [0.] + list(b.get('vel', [0., 0., 0.])[1:])
                if b['t'] == 'rect' and k == 'collide':
                    b['pos'][0] = 0.
        if rng.random() < .4:           # equal bodies
            for q, v in (('e', rng.choice([.5, 1., rng.random()])), ('mu', rng.choice([.9, rng.random()])), ('mass', rng.choice([1., 2.]))):
                if rng.random() < .7:
                    for b in c['scene']['bodies']:
                        b[q] = v
        c.update(mode='world', seed=rng.randrange(2 ** 31), nb=rng.choice([1, 1, 2, 4]), post_stab=rng.random() < .25)
        out.append(c)
    return out


# ---------------------------------------------------------------- parameters
def blocks(s):
    """All differentiable parameters of a scene: (body, key, force index, scales)."""
    out = []
    for i, b in enumerate(s['bodies']):
        out.append((i, 'mass', None, [.2 * mass_of(b)]))
        out.append((i, 'vel', None, [.05, 2., 2.]))
        out.append((i, 'e', None, [.1]))
        out.append((i, 'mu', None, [.1]))
        if b['t'] == 'circle':
            out.append((i, 'pos', None, [0., .5, .5][-len(b['pos']):]))
            out.append((i, 'rad', None, [.3]))
        elif b['t'] == 'rect':
            out.append((i, 'pos', None, [.02, .5, .5][-len(b['pos']):]))
            out.append((i, 'dims', None, [.5, .5]))
        else:
            out.append((i, 'ref', None, [.5, .5]))
            out.append((i, 'verts', None, [.3] * (2 * len(b['verts']))))
        for k, f in enumerate(b.get('forces', ())):
            out.append((i, 'g' if 'g' in f else 'mult', k, [.1 * abs(f.get('g', f.get('mult')))]))
    return out


def get(s, blk):
    b = s['bodies'][blk[0]]
    if blk[2] is not None:
        b = b['forces'][blk[2]]
    v = b.get(blk[1], {'mass': 1., 'e': .5, 'mu': .9, 'vel': [0., 0., 0.]}.get(blk[1]))
    return np.array(v, float)


def put(s, blk, v):
    b = s['bodies'][blk[0]]
    if blk[2] is not None:
        b = b['forces'][blk[2]]
    b[blk[1]] = [q for q in v] if blk[1] == 'verts' else v


def functional(w, W, dims):
    """Weighted sum of final poses and velocities."""
    import torch
    p = torch.stack([b.p for b in w.bodies])
    v = torch.stack([b.v for b in w.bodies])
    return (p * W[0]).sum() + (v * W[1]).sum()


def points(w):
    return [float(x) for c in w.contacts for q in c[0][:3] for x in q]


def simulate(case, spec, W, grad):
    import torch
    log = []
    random.seed(99)
    w = make_world(spec, engine=monitor_engine(log, limit=100, base=sim.fine_engine()), post_stab=case['post_stab'])
    sig, pts = [], []
    with torch.set_grad_enabled(grad):
        for _ in range(case['steps']):
            t = w.t
            w.step()
            pts += points(w)
            sig.append((round(w.t - t, 12), tuple(sorted((min(c[1], c[2]), max(c[1], c[2])) for c in w.contacts))))
        return functional(w, W, None), sig, np.array(pts)


def compare(r, f, x0, dx, what, floor=3e-4):
    """f(x, grad) -> (value, signature) with x a list of arrays; derivative along dx."""
    import torch
    T = lambda x: [torch.tensor(q, dtype=torch.double) for q in x]
    at = lambda h: f(T([a + h * d for a, d in zip(x0, dx)]), False)
    h = 1e-4
    base = at(0.)
    D, Q = {}, {}
    for k in (1, -1, .5, -.5):
        v = at(k * h)
        if v[1] != base[1]:
            r.count('skipped: another sequence of events')
            return None
        D[k] = float(v[0])
        Q[k] = v[2]
    # faces exactly parallel: the contact points come from one face here and from the other one anywhere else
    if base[2].size and abs(Q[.5] + Q[-.5] - 2 * base[2]).max() > 1e-4:
        r.count('skipped: tie of contact points')
        return None
    f0 = float(base[0])
    c1, c2 = (D[1] - D[-1]) / (2 * h), (D[.5] - D[-.5]) / h
    sides = abs((D[.5] - f0) - (f0 - D[-.5])) / (h / 2)
    # of which the part that does not shrink with the width is a kink here: any slope between the sides is right
    kink = max(0., 2 * sides - abs((D[1] - f0) - (f0 - D[-1])) / h)
    if not np.isfinite([c1, c2, sides]).all():
        r.fail('%s: the simulated state is not finite' % what)
        return None
    if abs(c1 - c2) > 2e-3 * abs(c2) + floor / 2 or sides > 2e-2 * abs(c2) + floor:
        r.count('skipped: no derivative')
        return None
    x = [q.requires_grad_(True) for q in T(x0)]
    y, sig = f(x, True)[:2]
    if sig != base[1]:
        r.fail('%s: the events differ when gradients are recorded' % what)
        return None
    if not y.requires_grad:
        g = 0.
    else:
        gs = torch.autograd.grad(y, x, allow_unused=True)
        g = sum(float((q * torch.as_tensor(d)).sum()) for q, d in zip(gs, dx) if q is not None)
    r.events += 1
    r.nontrivial = True
    tol = 1e-3 * abs(c2) + floor + 3 * abs(c1 - c2) + .6 * kink
    e = abs(g - c2)
    if not e <= tol:
        r.fail('%s: gradient %.6g, finite differences %.6g (%.6g, sides differ by %.2g)' % (what, g, c2, c1, sides))
        return None
    if abs(c2) > 5 * floor:
        r.count('clear derivatives')
        r.maxi('relative error', e / (abs(c2) + floor))
    return c2


def run(case, r):
    if case['mode'] == 'geometry':
        return geometry(case, r)
    import torch
    rng = random.Random(case['seed'])
    spec = case['scene']
    n = len(spec['bodies'])
    B = blocks(spec)
    moving = [b for b in B if not any(j['k'] == 'total' and j['b1'] == b[0] for j in spec.get('joints', ()))]
    W = [torch.tensor([[rng.uniform(-1, 1) * s for s in S] for _ in range(n)], dtype=torch.double)
         for S in ((5., .3, .3), (3., .05, .05))]
    r.key = [spec['kind'], case['seed']]
    r.count('with position correction', case['post_stab'])
    for rep in range(3):
        ch = rng.sample(moving if rng.random() < .8 else B, min(case['nb'] if rep else 1, len(moving)))
        x0 = [get(spec, b) for b in ch]
        dx = [np.array([s * rng.uniform(-1, 1) for s in b[3]]).reshape(x.shape) for b, x in zip(ch, x0)]

        def f(x, grad):
            s = copy.deepcopy(spec)
            for b, q in zip(ch, x):
                put(s, b, q)
            return simulate(case, s, W, grad)
        names = [b[1] for b in ch]
        try:
            c = compare(r, f, x0, dx, 'd(final state)/d(%s)' % ', '.join('%s of body %d' % (b[1], b[0]) for b in ch))
        except Stop:
            r.count('skipped: too many attempts')
            return
        if r.violations:
            r.violations[-1]['blocks'] = [list(b[:3]) for b in ch]
            return
        if c is not None:
            for k in names:
                r.count('by ' + k)
                if abs(c) > .01:
                    r.count('sensitive to ' + k)
            r.count('scenes ' + spec['kind'])


# ------------------------------------------------------------------ manifolds
def geometry(case, r):
    import torch
    from lcp_physics.physics.world import World
    import C06
    rng = random.Random(case['seed'])
    t = rng.choice(['cc', 'cr', 'ch', 'rr', 'rh', 'hh'])
    B = [C06.shape_spec(rng, k) for k in t]
    rng.shuffle(B)
    for b in B:
        b['eps'] = .5
    eps = .5
    S = [Shape(b) for b in B]
    fam = rng.choice(['random', 'random', 'flat']) if 'c' not in t else 'random'
    P = C06.poses(rng, fam, S, B, eps, np.zeros(2), 1., [])
    r.key = ['geometry', t, case['seed']]
    W = {}

    def f(x, grad):
        x = list(x)
        random.seed(5)
        with torch.set_grad_enabled(grad):
            bodies = []
            for i, b in enumerate(B):
                o = dict(b)
                if b['t'] == 'circle':
                    o['rad'] = x[2 + i]
                elif b['t'] == 'rect':
                    o['dims'] = x[2 + i]
                else:
                    o['verts'] = list(x[2 + i])
                bodies.append(make_body(o))
                bodies[-1].set_p(x[i])
            w = World(bodies, eps=eps, strict_no_penetration=False)
            tot = x[0].new_zeros(1)[0]
            cs = w.contacts
            for k, c in enumerate(cs):
                if k not in W:
                    W[k] = [torch.tensor([rng.uniform(-1, 1) for _ in range(m)], dtype=torch.double) for m in (2, 2, 2, 1)]
                (nrm, p1, p2, pen) = c[0]
                tot = tot + 5 * (nrm * W[k][0]).sum() + (p1 * W[k][1]).sum() + (p2 * W[k][2]).sum() + 3 * (pen * W[k][3]).sum()
            return tot, tuple((c[1], c[2]) for c in cs), np.array(points(w))

    sz = [{'circle': 'rad', 'rect': 'dims'}.get(b['t'], 'verts') for b in B]
    x0 = [np.array(P[0]), np.array(P[1])] + [np.array(b[k], float) for b, k in zip(B, sz)]
    for rep in range(4):
        dx = [np.array([.03, .3, .3]) * [rng.uniform(-1, 1) for _ in range(3)] if rep != 2 else np.zeros(3) for _ in range(2)]
        dx += [np.array([.2 * rng.uniform(-1, 1) for _ in range(x.size)]).reshape(x.shape) if rep >= 2 else np.zeros(x.shape)
               for x in x0[2:]]
        c = compare(r, f, x0, dx, 'd(contacts of %s)/d(%s)' % ('-'.join(b['t'] for b in B), ['poses', 'poses', 'shapes', 'both'][rep]))
        if r.violations:
            return
        if c is not None and c != 0.:
            r.count('manifolds ' + t)


NEED = {'by ' + k: 8 for k in ('mass', 'vel', 'e', 'mu', 'pos', 'rad', 'dims', 'ref', 'verts', 'g')}
NEED.update({'manifolds ' + t: 10 for t in ('cc', 'cr', 'ch', 'rr', 'rh', 'hh')})


if __name__ == '__main__':
    common.main(sys.modules[__name__])
