"""C06: contact detection"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import math
import random
from geom import Shape, separation, face_normals, rot
from scenes import make_body, rand_poly
from phys import contacts_np
from contactoracle import judge

ID = 'C06'
HANG = 'contact detection does not end'
RULE = ('pairs and crowds of circles, rectangles and random convex polygons in one world, re-posed several times (deep, shallow, '
        'touching, within, at and beyond the margin; random, axis-aligned, face-to-face, centre-on-feature poses; both orders, '
        'several sizes, margins and offsets); every reported contact and every unreported pair judged with reference geometry; '
        'distinct = shape types, regime and pose family; non-trivial when a contact was reported or rightly withheld near the margin')
ASSUME = ['hulls are strictly convex (a vertex inside an edge makes the contact code miss contacts)',
          'vertex against vertex within the margin need not be reported', 'concentric circles have no contact direction',
          'body margins at least half the world margin (the broad phase uses them)']
FAM = ['random', 'random', 'axis', 'flat', 'feature', 'crowd']


def gen(rng, tier):
    n = 2600 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        f = FAM[i % len(FAM)]
        out.append({'seed': rng.randrange(2 ** 31), 'fam': f, 'L': rng.choice([1., 1., .05, 20.]),
                    'eps': rng.choice([.1, .1, .02, .5, 1.]), 'off': rng.choice([0., 100., 3000.]),
                    'queries': 6 if f != 'crowd' else 3})
    return out


def shape_spec(rng, k=None):
    k = k or rng.choice('ccrrhhh')
    if k == 'c':
        return {'t': 'circle', 'pos': [0., 0., 0.], 'rad': rng.uniform(4, 30)}
    if k == 'r':
        d = [rng.uniform(6, 60), rng.uniform(6, 60)]
        if rng.random() < .2:
            d[1] = rng.choice([.8, 200.])
        return {'t': 'rect', 'pos': [0., 0., 0.], 'dims': d}
    V = rand_poly(rng, rng.uniform(6, 30), off=rng.choice([0., 10., 60.]))
    if rng.random() < .3:      # squeezed: long edges, centroid far from the edge middles
        sx, sy = rng.choice([(1, .25), (.3, 1)])
        V = [[a * sx, b * sy] for a, b in V]
    return {'t': 'hull', 'ref': [0., 0.], 'verts': V}


def place(rng, A, pa, B, th, ang, target):
    """Pose of B at angle th in direction ang from A with the wanted separation."""
    d = np.array([math.cos(ang), math.sin(ang)])
    f = lambda t: separation(A, pa, B, np.array([th, *(pa[1:] + t * d)]))
    lo, hi = 0., A.extent + B.extent + abs(target) + 1
    if f(lo) > target:
        return np.array([th, *(pa[1:] + hi * rng.uniform(.2, 1.) * d)])
    for _ in range(80):
        m = (lo + hi) / 2
        if f(m) < target:
            lo = m
        else:
            hi = m
    return np.array([th, *(pa[1:] + hi * d)])


def target_sep(rng, eps, A, B):
    r = min(A.extent, B.extent)
    k = rng.choice(['deep', 'mid', 'shallow', 'touch', 'in', 'in', 'edge-', 'edge+', 'out', 'far'])
    v = {'deep': lambda: -rng.uniform(.3, 1.) * r, 'mid': lambda: -rng.uniform(.01, .3) * r,
         'shallow': lambda: -10 ** rng.uniform(-7, -2) * r, 'touch': lambda: 0., 'in': lambda: rng.uniform(0, 1) * eps,
         'edge-': lambda: eps * (1 - 1e-4), 'edge+': lambda: eps * (1 + 1e-4), 'out': lambda: eps * rng.uniform(1, 4),
         'far': lambda: r * rng.uniform(.1, 2)}[k]()
    return k, v


def run(spec, r):
    import torch
    from lcp_physics.physics.world import World
    from scenes import rescale
    rng = random.Random(spec['seed'])
    L, fam = spec['L'], spec['fam']
    n = 2 if fam != 'crowd' else rng.randint(5, 9)
    eps = spec['eps'] * L
    if fam == 'axis':
        B = [shape_spec(rng, rng.choice('rrc')) for _ in range(n)]
    elif fam == 'flat':
        B = [shape_spec(rng, rng.choice('rhh')) for _ in range(n)]
    elif fam == 'feature':
        B = [shape_spec(rng, 'c'), shape_spec(rng, rng.choice('rhh'))]
    else:
        B = [shape_spec(rng) for _ in range(n)]
    rng.shuffle(B)
    for b in B:
        b['eps'] = spec['eps'] * rng.choice([.5, 1., 3.])
        if b['t'] == 'hull':
            b['rot'] = 0.
    sc = rescale({'bodies': B, 'joints': []}, L)
    B = sc['bodies']
    S = [Shape(b) for b in B]
    bodies = [make_body(b) for b in B]
    for i, b in enumerate(bodies):      # apart from each other
        b.set_p(b.p.new_tensor([0., 1e4 * L * (i + 1), -1e4 * L]))
    excl = set()
    if fam == 'crowd':
        for _ in range(rng.randint(0, 4)):
            i, j = rng.sample(range(n), 2)
            bodies[i].add_no_contact(bodies[j])
            excl.add(frozenset((i, j)))
    w = World(bodies, eps=eps, strict_no_penetration=False)
    types = sorted(b['t'] for b in B) if n == 2 else n
    r.key = [fam, types, spec['eps'], L, spec['off']]
    tol = 1e-9 * L + 1e-11 * spec['off'] * L
    off = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * spec['off'] * L
    regimes = []
    for q in range(spec['queries']):
        P = poses(rng, fam, S, B, eps, off, L, regimes)
        for b, p in zip(bodies, P):
            b.set_p(b.p.new_tensor(p.tolist()))
        for k in range(2):
            random.seed(rng.randrange(1000))
            w.find_contacts()
            judge(r, S, P, excl, contacts_np(w), eps, tol)
            if r.violations:
                r.violations[-1]['regime'] = regimes[-1] if regimes else None
                return
    if n == 2:
        r.key.append(sorted(set(regimes)))


def poses(rng, fam, S, B, eps, off, L, regimes):
    n = len(S)
    if fam == 'crowd':
        R = sum(s.extent for s in S) / n
        return [np.array([rng.uniform(-9, 9), *(off + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * R * n ** .5 * 1.3)])
                for _ in range(n)]
    k, t = target_sep(rng, eps, S[0], S[1])
    regimes.append(k)
    if fam == 'axis':
        q = lambda: rng.choice([0, 1, 2, 3, -1]) * math.pi / 2
        pa = np.array([q(), *off])
        # along an axis, sometimes with aligned centres
        ang = rng.choice([0, 1, 2, 3]) * math.pi / 2 + rng.choice([0., 0., rng.uniform(-.7, .7)])
        return [pa, place(rng, S[0], pa, S[1], q(), ang, t)]
    pa = np.array([rng.uniform(-7, 7), *off])
    if fam == 'random':
        return [pa, place(rng, S[0], pa, S[1], rng.uniform(-7, 7), rng.uniform(0, 6.3), t)]
    if fam == 'flat':
        # a face of B parallel (or almost) to a face of A, sliding along it
        A_, B_ = S
        i, j = rng.randrange(len(A_.local)), rng.randrange(len(B_.local))
        nA, nB = face_normals(A_.verts(pa))[i], face_normals(B_.local)[j]
        th = math.atan2(-nA[1], -nA[0]) - math.atan2(nB[1], nB[0]) + rng.choice([0., 0., 1e-9, 1e-4, -1e-4, .01, -.02])
        VA = A_.verts(pa)
        mA = VA[i] + (VA[(i + 1) % len(VA)] - VA[i]) * rng.uniform(0, 1)
        VB = B_.local @ rot(th).T
        mB = VB[j] + (VB[(j + 1) % len(VB)] - VB[j]) * rng.uniform(0, 1)
        g = rng.choice([t, t, min(t, 3 * eps)])
        return [pa, np.array([th, *(mA - mB + g * nA)])]
    # circle centre on, over, or inside special features of the hull
    ci = 0 if S[0].t == 'circle' else 1
    H, C = S[1 - ci], S[ci]
    V = H.verts(pa)
    i = rng.randrange(len(V))
    a, b = V[i], V[(i + 1) % len(V)]
    nA = face_normals(V)[i]
    m = rng.choice(['tip', 'vertex', 'over vertex', 'edge', 'line', 'centroid', 'near edge', 'inside', 'bisector'])
    regimes[-1] = m
    w = rng.uniform(0, 1)
    if m == 'tip':       # beyond the farthest vertex, in the direction of an axis: the broad phase is tightest there
        k = int(np.argmax(np.linalg.norm(H.local, axis=1)))
        q = rng.choice([0, 1, 2, 3]) * math.pi / 2
        pa[0] = q - math.atan2(H.local[k][1], H.local[k][0])
        d = np.array([math.cos(q), math.sin(q)])
        c = H.verts(pa)[k] + d * (C.rad + rng.uniform(.2, .999) * eps)
    elif m == 'vertex':
        c = a
    elif m == 'over vertex':
        c = a + nA * max(0., C.rad + t)
    elif m == 'edge':
        c = a + w * (b - a)
    elif m == 'line':
        c = b + rng.choice([1, 2]) * w * (b - a)
    elif m == 'centroid':
        c = pa[1:]
    elif m == 'near edge':
        c = a + w * (b - a) + nA * 10 ** rng.uniform(-12, -3) * rng.choice([-1, 1]) * C.rad
    elif m == 'inside':
        c = pa[1:] + (a + w * (b - a) - pa[1:]) * rng.uniform(0, 1)
    else:
        c = a + (a - pa[1:]) * rng.uniform(0, 1)
    pc = np.array([rng.uniform(-3, 3), *c])
    return [pc, pa] if ci == 0 else [pa, pc]


NEED = {'contacts circle-circle': 100, 'contacts circle-rect': 100, 'contacts circle-hull': 100, 'contacts rect-rect': 100,
        'contacts hull-rect': 100, 'contacts hull-hull': 100, 'excluded pairs': 50, 'patches with 2 ends': 100,
        'contacts overlapping': 500, 'contacts within the margin': 500}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
