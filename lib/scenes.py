"""JSON-able scene specs: random generation and construction with the real classes."""
import math
import random as _random
import numpy as np

from geom import Shape, separation, lower_separation, area_centroid


# ----------------------------------------------------------------- forces
def force_ref(f, t, mass):
    """Reference value of one force spec at time t (3-vector)."""
    k = f['k']
    if k == 'gravity':
        return np.array([0, 0, 1.]) * mass * f['g']
    if k == 'const':
        return np.array(f['vec'], float) * f['mult']
    if k == 'pulse':
        return np.array(f['vec'], float) * f['mult'] if f['t0'] <= t < f['t1'] else np.zeros(3)
    if k == 'sin':
        return np.array(f['vec'], float) * f['mult'] * math.sin(f['w'] * t + f['ph'])
    if k in ('down', 'vert', 'hor', 'rotimp'):
        vec = {'down': [0, 0, 1.], 'vert': [0, 0, 1.], 'hor': [0, 1., 0], 'rotimp': [1., 0, 0]}[k]
        if k != 'down' and not t < 0.1:
            return np.zeros(3)
        return np.array(vec) * f['mult']
    raise ValueError(k)


def make_force(f):
    import torch
    from lcp_physics.physics import forces as F
    T = lambda v: torch.tensor(v, dtype=torch.double)
    k = f['k']
    if k == 'gravity':
        return F.Gravity(g=f['g'])
    if k == 'const':
        v = T(f['vec'])
        return F.ExternalForce(lambda t: v, multiplier=f['mult'])
    if k == 'pulse':
        v = T(f['vec'])
        return F.ExternalForce(lambda t: v if f['t0'] <= t < f['t1'] else F.ExternalForce.ZEROS,
                               multiplier=f['mult'])
    if k == 'sin':
        v = T(f['vec'])
        return F.ExternalForce(lambda t: v * math.sin(f['w'] * t + f['ph']), multiplier=f['mult'])
    fn = {'down': F.down_force, 'vert': F.vert_impulse, 'hor': F.hor_impulse, 'rotimp': F.rot_impulse}[k]
    return F.ExternalForce(fn, multiplier=f['mult'])


# ------------------------------------------------------------- construction
DEF_E, DEF_MU = 0.5, 0.9


def make_body(b, over=None):
    """over: replaces numbers by tensors (gradient runs)."""
    from lcp_physics.physics.bodies import Circle, Rect, Hull
    o = dict(b)
    if over:
        o.update(over)
    kw = {}
    for k, n in (('vel', 'vel'), ('mass', 'mass'), ('e', 'restitution'), ('mu', 'fric_coeff'), ('eps', 'eps')):
        if k in o:
            kw[n] = o[k]
    if b['t'] == 'circle':
        body = Circle(o['pos'], o['rad'], **kw)
    elif b['t'] == 'rect':
        body = Rect(o['pos'], o['dims'], **kw)
    else:
        body = Hull(o['ref'], o['verts'], **kw)
        if b.get('rot'):
            p = body.p.clone()
            p[0] = p[0] + b['rot']
            body.set_p(p)
    made = []
    for f in b.get('forces', ()):
        same = [m for m, g in zip(made, b['forces']) if f.get('twice') and m is not None and {**g, 'twice': 0} == {**f, 'twice': 0}]
        made.append(same[0] if same else make_force(f))
        body.add_force(made[-1])
    return body


def init_pose(b):
    """Pose (3-vector) the body has after make_body, by the documented meaning."""
    if b['t'] == 'hull':
        c = area_centroid(np.array(b['verts'], float))[1]
        r = np.asarray(b['ref'][-2:], float) + c
        return np.array([b.get('rot', 0.), r[0], r[1]])
    p = b['pos']
    return np.array([0., p[0], p[1]] if len(p) == 2 else p, float)


def make_joint(j, bodies):
    from lcp_physics.physics import constraints as C
    b1 = bodies[j['b1']]
    k = j['k']
    if k == 'joint':
        return C.Joint(b1, None if j.get('b2') is None else bodies[j['b2']], j['pos'])
    if k == 'fixed':
        return C.FixedJoint(b1, bodies[j['b2']])
    return {'x': C.XConstraint, 'y': C.YConstraint, 'rot': C.RotConstraint, 'total': C.TotalConstraint}[k](b1)


def make_world(spec, engine=None, over=None, bodies=None, **wkw):
    from lcp_physics.physics.world import World
    if bodies is None:
        bodies = [make_body(b, None if over is None else over.get(i)) for i, b in enumerate(spec['bodies'])]
    for i, j in spec.get('no_contact', ()):
        bodies[i].add_no_contact(bodies[j])
    joints = [make_joint(j, bodies) for j in spec.get('joints', ())]
    kw = dict(spec.get('world', {}))
    kw.update(wkw)
    if engine is not None:
        kw['engine'] = engine
    w = World(bodies, joints, **kw)
    return w


def e_of(b):
    return b.get('e', DEF_E)


def mu_of(b):
    return b.get('mu', DEF_MU)


def mass_of(b):
    return b.get('mass', 1.)


# ----------------------------------------------------------------- generation
def rand_poly(rng, r, n=None, off=0.):
    """Random convex CCW polygon (points on an ellipse-ish blob), its reference
    point not at the centroid."""
    many = n is None and rng.random() < .12
    while True:
        m = n or (rng.randint(8, 16) if many else rng.randint(3, 7))
        a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(m))
        if many:        # corners at least a third of their mean spacing apart
            a0, k = rng.uniform(0, 2 * math.pi), 2 * math.pi / m
            a = sorted((a0 + (i + rng.uniform(-.33, .33)) * k) % (2 * math.pi) for i in range(m))
        gaps = [(a[(i + 1) % m] - a[i]) % (2 * math.pi) for i in range(m)]
        if max(gaps) > 2.6 or min(gaps) < (0.1 if many else 0.25):
            continue
        sx, sy, th = rng.uniform(.6, 1.), rng.uniform(.6, 1.), rng.uniform(0, 6.28)
        P = np.array([[r * sx * math.cos(t), r * sy * math.sin(t)] for t in a])
        c, s = math.cos(th), math.sin(th)
        P = P @ np.array([[c, s], [-s, c]])
        if off:
            P = P + np.array([rng.uniform(-off, off), rng.uniform(-off, off)])
        return P.tolist()


def rand_force(rng):
    k = rng.choice(['gravity', 'const', 'pulse', 'sin', 'down', 'vert', 'hor', 'rotimp'])
    f = {'k': k}
    if k == 'gravity':
        f['g'] = rng.uniform(-100, 100)
    else:
        f['mult'] = rng.uniform(-200, 200)
    if k in ('const', 'pulse', 'sin'):
        f['vec'] = [rng.uniform(-20, 20), rng.uniform(-1, 1), rng.uniform(-1, 1)]
    if k == 'pulse':
        f['t0'] = rng.uniform(0, .3)
        f['t1'] = f['t0'] + rng.uniform(.05, .5)
    if k == 'sin':
        f['w'], f['ph'] = rng.uniform(1, 20), rng.uniform(0, 6)
    return f


def rand_body(rng, x, y, size=(10, 40), kinds='crh', vel=(1, 60), mass=(.5, 5), e=None, mu=None, rot=True):
    k = rng.choice(kinds)
    th = rng.uniform(-math.pi, math.pi) if rot else 0.
    v = [rng.uniform(-vel[0], vel[0]), rng.uniform(-vel[1], vel[1]), rng.uniform(-vel[1], vel[1])]
    b = {'vel': v, 'mass': rng.uniform(*mass),
         'e': rng.uniform(0, 1) if e is None else e, 'mu': rng.uniform(0, 1) if mu is None else mu}
    if k == 'c':
        b.update(t='circle', pos=[th, x, y], rad=rng.uniform(*size))
    elif k == 'r':
        b.update(t='rect', pos=[th, x, y], dims=[rng.uniform(2 * size[0], 2 * size[1]) for _ in range(2)])
    else:
        V = rand_poly(rng, rng.uniform(*size), off=10)
        c = area_centroid(np.array(V))[1]
        b.update(t='hull', ref=[x - c[0], y - c[1]], verts=V, rot=th)
    return b


def excluded(spec):
    return {frozenset(p) for p in spec.get('no_contact', ())}


def min_separation(spec, poses=None):
    S = [Shape(b) for b in spec['bodies']]
    P = poses if poses is not None else [init_pose(b) for b in spec['bodies']]
    ex = excluded(spec)
    m = 1e9
    for i in range(len(S)):
        for j in range(i):
            if frozenset((i, j)) in ex:
                continue
            if lower_separation(S[i], P[i], S[j], P[j]) > 5:
                continue
            m = min(m, separation(S[i], P[i], S[j], P[j]))
    return m


def scene(rng, kind, **o):
    """A random non-overlapping scene of the given kind."""
    for _ in range(200):
        s = _scene(rng, kind, **o)
        if s is None:
            continue
        s['kind'] = kind
        if min_separation(s) > o.get('clear', 0.3):
            return s
    raise RuntimeError('no %s scene' % kind)


def shuffle_bodies(s, rng):
    """Same scene, other order of the bodies."""
    o = list(range(len(s['bodies'])))
    rng.shuffle(o)
    inv = {b: i for i, b in enumerate(o)}
    s['bodies'] = [s['bodies'][i] for i in o]
    for j in s.get('joints', ()):
        for k in ('b1', 'b2'):
            if j.get(k) is not None:
                j[k] = inv[j[k]]
    s['no_contact'] = [[inv[a], inv[b]] for a, b in s.get('no_contact', ())]


def _walls(L, H, e=None, mu=None, rng=None, th=20.):
    out = []
    for x, y, w, h in ((L / 2, -th / 2, L + 2 * th, th), (L / 2, H + th / 2, L + 2 * th, th),
                       (-th / 2, H / 2, th, H), (L + th / 2, H / 2, th, H)):
        out.append({'t': 'rect', 'pos': [0., x, y], 'dims': [w, h],
                    'e': rng.uniform(0, 1) if e is None else e, 'mu': rng.uniform(0, 1) if mu is None else mu})
    return out


def _scene(rng, kind, **o):
    e, mu = o.get('e'), o.get('mu')
    if kind == 'floor':       # bodies dropped on an inclined floor
        f = {'t': 'rect', 'pos': [rng.uniform(-.15, .15), 500, 400], 'dims': [1000, 10],
             'e': rng.uniform(0, 1) if e is None else e, 'mu': rng.uniform(0, 1) if mu is None else mu}
        B = [f]
        n = o.get('n') or rng.randint(1, 4)
        for i in range(n):
            b = rand_body(rng, 180 + 160 * i + rng.uniform(-20, 20), rng.uniform(220, 310), e=e, mu=mu,
                          vel=(1, 60), kinds=o.get('kinds', 'crh'))
            b['forces'] = [{'k': 'gravity', 'g': o.get('g', 100.)}]
            B.append(b)
        return {'bodies': B, 'joints': [{'k': 'total', 'b1': 0}]}
    if kind == 'collide':     # two (or three) bodies shot at each other
        B = []
        n = o.get('n') or rng.choice([2, 2, 2, 3])
        a0 = rng.uniform(0, 6.28)
        for i in range(n):
            a = a0 + 2 * math.pi * i / n
            d = rng.uniform(60, 90)
            x, y = d * math.cos(a), d * math.sin(a)
            b = rand_body(rng, x, y, e=e, mu=mu, vel=(2, 10), kinds=o.get('kinds', 'crh'))
            sp = rng.uniform(40, 160)
            b['vel'][1] -= sp * x / d
            b['vel'][2] -= sp * y / d
            if rng.random() < .3 and not o.get('noforce'):
                b['forces'] = [{'k': 'const', 'vec': [rng.uniform(-5, 5), rng.uniform(-1, 1), rng.uniform(-1, 1)],
                                'mult': rng.uniform(1, 50)}]
            B.append(b)
        return {'bodies': B, 'joints': []}
    if kind == 'box':         # billiard in a closed box
        L, H = rng.uniform(150, 250), rng.uniform(150, 250)
        W = _walls(L, H, e, mu, rng)
        n = o.get('n') or rng.randint(2, 5)
        B = list(W)
        for i in range(n):
            B.append(rand_body(rng, rng.uniform(35, L - 35), rng.uniform(35, H - 35), size=(8, 20),
                               e=e, mu=mu, vel=(2, 100), kinds=o.get('kinds', 'crh')))
        if o.get('grav'):
            for b in B[4:]:
                b['forces'] = [{'k': 'gravity', 'g': o['grav']}]
        J = [{'k': 'total', 'b1': i} for i in range(4)]
        nc = [[i, j] for i in range(4) for j in range(i)]
        return {'bodies': B, 'joints': J, 'no_contact': nc}
    if kind == 'chain':       # pendulum chain of links, hit by a projectile
        n = o.get('n') or rng.randint(2, 5)
        B, J, nc = [], [], []
        x, y = 0., 0.
        px, py = 0., 0.
        th = rng.uniform(-.6, .6)
        for i in range(n):
            L = rng.uniform(30, 50)
            cx, cy = px + math.sin(th) * L / 2, py + math.cos(th) * L / 2
            b = rand_body(rng, cx, cy, kinds='r', e=e, mu=mu, vel=(0, 0))
            b['pos'] = [-th, cx, cy]
            b['dims'] = [rng.uniform(6, 12), L + 6]
            b['vel'] = [0., 0., 0.]
            b['forces'] = [{'k': 'gravity', 'g': rng.choice([10., 100.])}]
            B.append(b)
            J.append({'k': 'joint', 'b1': i, 'b2': i - 1 if i else None, 'pos': [px, py]})
            if i:
                nc.append([i, i - 1])
            px, py = px + math.sin(th) * L, py + math.cos(th) * L
            th += rng.uniform(-.3, .3)
        if o.get('projectile', True):
            c = rand_body(rng, cx - rng.choice([-1, 1]) * rng.uniform(45, 70), cy + rng.uniform(-10, 10),
                          kinds='ch', e=e, mu=mu, size=(8, 16))
            c['vel'] = [rng.uniform(-1, 1), math.copysign(rng.uniform(80, 200), cx - init_pose(c)[1]), 0.]
            B.append(c)
        return {'bodies': B, 'joints': J, 'no_contact': nc}
    if kind == 'crowd':       # several collisions at once, far from each other
        B = []
        for g in range(rng.randint(3, 5)):
            q = _scene(rng, 'collide', **dict(o, n=rng.choice([2, 2, 3]) if g else 2))
            for b in q['bodies']:
                k = 'ref' if 'verts' in b else 'pos'
                b[k][-2] += 3000. * (g % 3)
                b[k][-1] += 3000. * (g // 3)
                B.append(b)
        s = {'bodies': B, 'joints': []}
        shuffle_bodies(s, rng)
        return s
    if kind == 'central':     # nearly central and nearly flat impacts
        small = lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1)
        a = rand_body(rng, 0., 0., e=e, mu=mu, vel=(0, 0), kinds=o.get('kinds', 'crh').replace('c', '') or 'c')
        b = rand_body(rng, 0., 0., e=e, mu=mu, vel=(0, 0), kinds=o.get('kinds', 'crh'))
        S, T = Shape(a), Shape(b)
        pa = init_pose(a)
        if S.local is not None:
            V = S.verts(pa)
            k = rng.randrange(len(V))
            d = V[(k + 1) % len(V)] - V[k]
            n = np.array([d[1], -d[0]]) / np.hypot(*d)      # out of that face
            if n @ (V[k] - pa[1:]) < 0:
                n = -n
        else:
            n = np.array([1., 0.])
        g = rng.uniform(1, 20)
        c = pa[1:] + n * (S.extent + T.extent + g) + np.array([-n[1], n[0]]) * small() * S.extent
        if 'verts' in b:
            b['ref'] = (np.array(b['ref']) - init_pose(b)[1:] + c).tolist()
        else:
            b['pos'] = [b['pos'][0], c[0], c[1]]
            if b['t'] == 'rect':
                b['pos'][0] = math.atan2(n[1], n[0]) + small()
        u = rng.uniform(20, 150)
        b['vel'] = [small(), -u * n[0] + small(), -u * n[1] + small()]
        a['vel'] = [small() if rng.random() < .5 else 0., u * n[0] * .5, u * n[1] * .5] if rng.random() < .6 else [0., 0., 0.]
        B = [a, b]
        rng.shuffle(B)
        return {'bodies': B, 'joints': []}
    if kind == 'free':        # satellites under all sorts of forces, around a collision
        s = _scene(rng, 'collide', **dict(o, noforce=True))
        for i in range(rng.randint(1, 3)):
            b = rand_body(rng, 4000. + 4000 * i, rng.choice([-1, 1]) * 3000., e=e, mu=mu, vel=(2, 100))
            b['forces'] = [rand_force(rng) for _ in range(rng.randint(0, 3))]
            s['bodies'].insert(rng.randint(0, len(s['bodies'])), b)
        return s
    if kind == 'linkage':     # floating linkages that collide
        B, J, nc = [], [], []
        for side in (-1, 1):
            x, y = side * rng.uniform(75, 95), rng.uniform(-15, 15)
            b = rand_body(rng, x, y, e=e, mu=mu, size=(10, 22), kinds=o.get('kinds', 'crh'))
            v = [0., -side * rng.uniform(20, 90), rng.uniform(-5, 5)]
            b['vel'] = list(v)
            if rng.random() < .3:
                b['forces'] = [rand_force(rng)]
            B.append(b)
            i = len(B) - 1
            k = rng.choice(['joint', 'joint', 'fixed', 'none', 'two'])
            for m in range({'none': 0, 'two': 2}.get(k, 1)):
                a = rng.uniform(-2, 2) + (0 if side > 0 else math.pi) + m
                d = rng.uniform(25, 45)
                c = rand_body(rng, x + d * math.cos(a), y + d * math.sin(a), e=e, mu=mu, size=(8, 16),
                              kinds=o.get('kinds', 'crh'))
                c['vel'] = list(v)
                B.append(c)
                nc.append([i, len(B) - 1])
                if m:
                    nc.append([len(B) - 2, len(B) - 1])
                if k == 'fixed':
                    J.append({'k': 'fixed', 'b1': i, 'b2': len(B) - 1} if rng.random() < .5 else
                             {'k': 'fixed', 'b1': len(B) - 1, 'b2': i})
                else:
                    t = rng.uniform(.2, .8)
                    j = [i, len(B) - 1]
                    rng.shuffle(j)
                    J.append({'k': 'joint', 'b1': j[0], 'b2': j[1],
                              'pos': [x + t * d * math.cos(a) + rng.uniform(-4, 4), y + t * d * math.sin(a) + rng.uniform(-4, 4)]})
        return {'bodies': B, 'joints': J, 'no_contact': nc}
    if kind == 'stack':       # piles at rest on a floor
        B = [{'t': 'rect', 'pos': [0., 200, 410], 'dims': [500, 20],
              'e': rng.uniform(0, 1) if e is None else e, 'mu': rng.uniform(.2, 1) if mu is None else mu}]
        y = 400.
        for i in range(rng.randint(1, 3)):
            w, h = rng.uniform(30, 60), rng.uniform(20, 40)
            gap = rng.choice([0.05, 0.5, 3.])
            b = rand_body(rng, 0, 0, kinds='r', e=e, mu=mu)
            b.update(pos=[0., 200 + rng.uniform(-8, 8), y - gap - h / 2], dims=[w, h], vel=[0., 0., 0.],
                     forces=[{'k': 'gravity', 'g': 100.}])
            B.append(b)
            y -= gap + h
        if rng.random() < .6:
            r = rng.uniform(8, 15)
            b = rand_body(rng, 0, 0, kinds='c', e=e, mu=mu)
            b.update(pos=[0., 200 + rng.uniform(-5, 5), y - r - rng.choice([.05, 2.])], rad=r, vel=[0., rng.uniform(-20, 20), 0.],
                     forces=[{'k': 'gravity', 'g': 100.}])
            B.append(b)
        if rng.random() < .5:
            B.append(rand_body(rng, 60, rng.uniform(330, 380), e=e, mu=mu, size=(8, 14), vel=(1, 5), mass=(1, 4)))
            B[-1]['vel'][1] = rng.uniform(50, 150)
        return {'bodies': B, 'joints': [{'k': 'total', 'b1': 0}]}
    if kind == 'mixed':       # joints of every kind next to contacts
        B, J, nc = [], [], []
        f = {'t': 'rect', 'pos': [0., 300, 410], 'dims': [900, 20],
             'e': rng.uniform(0, 1) if e is None else e, 'mu': rng.uniform(0, 1) if mu is None else mu}
        B.append(f)
        J.append({'k': 'total', 'b1': 0})
        x = 60
        for k in rng.sample(['x', 'y', 'rot', 'joint', 'fixed', 'xy', 'link', 'free'], rng.randint(2, 4)):
            b = rand_body(rng, x, rng.uniform(300, 340), size=(10, 22), e=e, mu=mu, vel=(1, 40))
            i = len(B)
            B.append(b)
            b['forces'] = [{'k': 'gravity', 'g': 100.}]
            p = init_pose(b)
            if k in ('x', 'y', 'rot'):
                J.append({'k': k, 'b1': i})
                b['vel'][{'rot': 0, 'x': 1, 'y': 2}[k]] = 0.
            elif k == 'xy':
                J += [{'k': 'x', 'b1': i}, {'k': 'y', 'b1': i}]
                b['vel'][1] = b['vel'][2] = 0.
            elif k == 'joint':
                a = [p[1] + rng.uniform(3, 9), p[2] - rng.uniform(3, 9)]
                J.append({'k': 'joint', 'b1': i, 'b2': None, 'pos': a})
                b['vel'] = [0., 0., 0.]
            elif k in ('fixed', 'link'):
                b2 = rand_body(rng, x + rng.uniform(20, 30), p[2] + rng.uniform(-6, 6), size=(8, 16), e=e, mu=mu)
                b2['forces'] = [{'k': 'gravity', 'g': 100.}]
                b['vel'] = b2['vel'] = [0., 0., 0.]
                B.append(b2)
                nc.append([i, i + 1])
                if k == 'fixed':
                    J.append({'k': 'fixed', 'b1': i, 'b2': i + 1})
                else:
                    q = init_pose(b2)
                    J.append({'k': 'joint', 'b1': i, 'b2': i + 1, 'pos': [(p[1] + q[1]) / 2 + 2., (p[2] + q[2]) / 2]})
                x += 30
            x += rng.uniform(70, 90)
        return {'bodies': B, 'joints': J, 'no_contact': nc}
    raise ValueError(kind)


# ------------------------------------------------- scenes of the shipped demos
def demo(name, g=100.):
    """The scenes of demos/ and tests/, as specs."""
    G = [{'k': 'gravity', 'g': g}]
    C = lambda x, y, r, **k: dict({'t': 'circle', 'pos': [0., x, y], 'rad': float(r), 'vel': [0., 0., 0.]}, **k)
    R = lambda x, y, w, h, rot=0., **k: dict({'t': 'rect', 'pos': [rot, x, y], 'dims': [float(w), float(h)],
                                              'vel': [0., 0., 0.]}, **k)
    H = lambda x, y, V, **k: dict({'t': 'hull', 'ref': [float(x), float(y)], 'verts': [[float(a), float(b)] for a, b in V],
                                   'vel': [0., 0., 0.]}, **k)
    clock = C(975, 575, 20, vel=[1., 0., 0.])
    B, J, nc = [], [], []
    if name == 'slide':
        B = [R(500, 300, 900, 10, rot=math.pi / 32, mu=.15), R(100, 100, 60, 60, mu=.15, forces=G)]
        J = [{'k': 'total', 'b1': 0}]
    elif name == 'hullslide':
        B = [clock, H(500, 300, [[450, 5], [-450, 5], [-450, -5], [450, -5]], rot=math.pi / 32, mu=.2),
             H(100, 100, [[50, 0], [30, 50], [-30, 30], [-50, -30], [0, -50], [30, -30]], mu=.2, forces=G)]
        J = [{'k': 'total', 'b1': 1}]
    elif name == 'fric':
        k = {'e': .1, 'mu': 1.}
        B = [R(400, 400, 900, 10, forces=G + [{'k': 'pulse', 'vec': [0., 1., 0.], 'mult': 100., 't0': 1., 't1': 2.}], **k),
             C(200, 364, 30, forces=G, **k), C(50, 436, 30, **k), C(800, 436, 30, **k), clock]
        J = [{'k': a, 'b1': i} for i in (2, 3) for a in 'xy']
    elif name == 'chain':
        B = [R(300, 50, 20, 60, e=.9)]
        J = [{'k': 'x', 'b1': 0}, {'k': 'y', 'b1': 0}]
        for i in range(1, 10):
            B.append(R(300, 50 + 50 * i, 20, 60, e=.9, forces=G))
            J.append({'k': 'joint', 'b1': i, 'b2': i - 1, 'pos': [300., 25. + 50 * i]})
            nc.append([i, i - 1])
        B += [C(50, 500, 20, e=.9, forces=[{'k': 'hor', 'mult': 2000.}]), clock]
    elif name == 'debug':
        imp = [{'k': 'vert', 'mult': 500.}]
        B = [C(150, 150, 20, forces=imp), C(150, 230, 20), C(300, 150, 20, forces=G), C(301, 230, 20),
             C(225, 300, 20, forces=G), C(215, 380, 20), C(375, 300, 20, forces=imp), C(375, 380, 20),
             R(300, 500, 40, 40, vel=[-1., 0., 0.], forces=[{'k': 'gravity', 'g': -g}]), clock]
        J = [{'k': 'joint', 'b1': 1, 'b2': None, 'pos': [140., 220.]}, {'k': 'total', 'b1': 3}]
    elif name == 'fixed':
        B = [R(120, 100, 60, 60, mu=.15, forces=G), R(160, 100, 60, 60, mu=.15, forces=G),
             R(500, 500, 900, 10, rot=math.pi / 32, mu=.15)]
        J = [{'k': 'fixed', 'b1': 0, 'b2': 1}, {'k': 'total', 'b1': 2}]
        nc = [[0, 1]]
    elif name == 'render':
        q = math.sqrt(2) * 10
        D = [[q + 10, 10], [10, q + 10], [-q + 10, 10], [10, -q + 10]]
        f = [{'k': 'hor', 'mult': 1000.}, {'k': 'rotimp', 'mult': 1000.}]
        B = [H(700, 200, D), H(300, 200, [[60, 0], [60, 60], [0, 60]], forces=f),
             H(700, 400, [[60, 0], [60, 60], [0, 0]]), H(300, 420, [[60, 0], [0, 60], [0, 0]], forces=f),
             H(500, 300, [[50, 0], [30, 60], [-30, 30], [-60, -30], [0, -60]], forces=f)]
    else:
        raise ValueError(name)
    return {'kind': 'demo-' + name, 'bodies': B, 'joints': J, 'no_contact': nc}


DEMOS = ['slide', 'hullslide', 'fric', 'chain', 'debug', 'fixed', 'render']


def rescale(spec, L):
    """The same scene in a length unit 1/L of the old one (margins included)."""
    import copy
    s = copy.deepcopy(spec)
    for b in s['bodies']:
        for k in ('pos', 'vel', 'ref'):
            if k in b:
                b[k] = [v * L if len(b[k]) == 2 or i else v for i, v in enumerate(b[k])]
        if 'dims' in b:
            b['dims'] = [v * L for v in b['dims']]
        if 'rad' in b:
            b['rad'] *= L
        if 'verts' in b:
            b['verts'] = [[x * L for x in v] for v in b['verts']]
        b['eps'] = b.get('eps', .1) * L
        for f in b.get('forces', ()):
            if 'g' in f:
                f['g'] *= L
            elif 'vec' in f:
                f['vec'] = [f['vec'][0] * L * L, f['vec'][1] * L, f['vec'][2] * L]
            else:
                f['mult'] *= L * L if f['k'] == 'rotimp' else L
    for j in s.get('joints', ()):
        if 'pos' in j:
            j['pos'] = [v * L for v in j['pos']]
    w = s.setdefault('world', {})
    w['eps'] = w.get('eps', .1) * L
    w['tol'] = w.get('tol', 1e-6) * L
    s['kind'] = s.get('kind', '') + '*%g' % L
    return s


def retime(spec, k):
    """The same scene in a time unit 1/k of the old one (slower for k > 1); built-in impulses keep their duration."""
    import copy
    s = copy.deepcopy(spec)
    w = s.setdefault('world', {})
    w['dt'] = w.get('dt', 1 / 30.) * k
    for b in s['bodies']:
        if 'vel' in b:
            b['vel'] = [x / k for x in b['vel']]
        for f in b.get('forces', ()):
            for q, n in (('g', 2), ('mult', 2), ('w', 1), ('t0', -1), ('t1', -1)):
                if q in f:
                    f[q] /= float(k) ** n
    s['kind'] = s.get('kind', '') + '*t%g' % k
    return s
