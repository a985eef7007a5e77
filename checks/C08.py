"""C08: mass properties"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import math
import random
from geom import area_centroid, polygon_inertia
from scenes import rand_poly

ID = 'C08'
RULE = ('random circles, rectangles and convex polygons (3-9 vertices, several sizes, reference points up to 1000 away, rotated '
        'starting vertex, rectangles also given as polygons), masses over six decades; mass matrix, position and vertices '
        'against exact triangle integrals, derivatives of mass matrix and position against differences of those; distinct = '
        'shape; also the mass matrix of whole worlds')
ASSUME = ['polygons convex with counter-clockwise vertices in mathematical axes, as the constructor demands']
TOL = 1e-9


def gen(rng, tier):
    n = 2000 if tier == 'quick' else 60000
    return [{'seed': rng.randrange(2 ** 31), 't': rng.choice(['circle', 'rect', 'hull', 'hull', 'rect-as-hull', 'world'])}
            for _ in range(n)]


def check(r, b, V, I, m, pos, what):
    """V: world vertices or None."""
    r.events += 1
    M = b.M.detach().numpy()
    ref = np.diag([I, m, m])
    e = np.abs(M - ref) / np.array([[I, m, m]] * 3)
    r.maxi('relative error of the mass matrix', e.max())
    if not (e < TOL).all():
        r.fail('%s: mass matrix %s instead of diag(%g, %g, %g)' % (what, M.tolist(), I, m, m))
        return
    L = 1 + np.abs(pos).max()
    if not np.abs(b.pos.detach().numpy() - pos).max() < 1e-10 * L * 10:
        r.fail('%s: the body is at %s, its centroid at %s' % (what, b.pos.tolist(), pos.tolist()))
        return
    if abs(float(b.mass) - m) > 1e-12 * m:
        r.fail('%s: mass %g instead of %g' % (what, float(b.mass), m))
    if V is not None:
        W = np.stack([(v + b.pos).detach().numpy() for v in b.verts])
        d = max(np.linalg.norm(V - w, axis=1).min() for w in W) if len(W) == len(V) else 1e9
        if d > 1e-9 * L:
            r.fail('%s: a vertex is %.4g from where the user put it' % (what, d))


def run(spec, r):
    import torch
    from lcp_physics.physics.bodies import Circle, Rect, Hull
    rng = random.Random(spec['seed'])
    m = 10 ** rng.uniform(*rng.choice([(-3, 3), (-6, 6)]))
    s = rng.choice([.01, 1., 1., 100.])
    x = [rng.uniform(-1000, 1000), rng.uniform(-1000, 1000)]
    r.nontrivial = True
    r.key = [spec['t'], spec['seed']]
    r.count(spec['t'])
    T = lambda v: torch.tensor(v, dtype=torch.double, requires_grad=True)
    t = spec['t']
    if t == 'world':
        return run_world_M(rng, r)
    if t == 'circle':
        rad = s * rng.uniform(.5, 20)
        p = [rng.uniform(-9, 9)] * rng.randint(0, 1) + x
        check(r, Circle(p, rad, mass=m), None, m * rad * rad / 2, m, np.array(x), t)
        tm, tr = T(m), T(rad)
        b = Circle(torch.tensor(p, dtype=torch.double), tr, mass=tm)
        grad(r, t, b.M[0, 0], [tm, tr], [rad * rad / 2, m * rad])
        grad(r, t, b.M[1, 1] + 2 * b.M[2, 2], [tm], [3.])
        return
    if t == 'rect':
        w, h = s * rng.uniform(1, 40), s * rng.uniform(1, 40)
        V = np.array([[w, h], [-w, h], [-w, -h], [w, -h]]) / 2
        a = rng.uniform(-9, 9) * rng.randint(0, 1)
        R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        p = [a] * (1 if a else rng.randint(0, 1)) + x
        check(r, Rect(p, [w, h], mass=m), V @ R.T + x, m * (w * w + h * h) / 12, m, np.array(x), t)
        tm, td = T(m), T([w, h])
        b = Rect(torch.tensor(p, dtype=torch.double), td, mass=tm)
        grad(r, t, b.M[0, 0], [tm, td], [(w * w + h * h) / 12, np.array([m * w / 6, m * h / 6])])
        grad(r, t, b.M[1, 1] + 2 * b.M[2, 2], [tm], [3.])
        return
    if t == 'hull':
        V = np.array(rand_poly(rng, s * rng.uniform(2, 30), n=rng.randint(3, 9), off=s * rng.choice([0, 10, 300])))
    else:
        w, h = s * rng.uniform(1, 40), s * rng.uniform(1, 40)
        V = np.array([[w, h], [-w, h], [-w, -h], [w, -h]]) / 2 + np.array([rng.uniform(-50, 50), rng.uniform(-50, 50)]) * s
    k = rng.randrange(len(V))
    V = np.roll(V, k, axis=0)
    if t == 'hull' and rng.random() < .3:      # far flatter
        V = V * np.array([1, rng.choice([.05, .2])])
    c = area_centroid(V)[1]
    I = polygon_inertia(V, m)
    b = Hull(x, V.tolist(), mass=m)
    check(r, b, V + x, I, m, np.array(x) + c, t)
    for bad, what in ((V[::-1], 'in the wrong sense'), (V[:2], 'of two vertices')):
        try:
            Hull(x, bad.tolist(), mass=m)
        except Exception:
            r.count('polygons refused')
        else:
            r.fail('a polygon %s is accepted: %s' % (what, bad.tolist()))
            return
    if t == 'rect-as-hull':
        q = Rect((np.array(x) + c).tolist(), [w, h], mass=m)
        if abs(float(q.M[0, 0] - b.M[0, 0])) > TOL * I:
            r.fail('a rectangle as rectangle and as polygon has inertia %.12g and %.12g' % (float(q.M[0, 0]), float(b.M[0, 0])))
    # derivatives
    tm, tx, tv = T(m), T(x), [T(v) for v in V.tolist()]
    b = Hull(tx, tv, mass=tm)
    grad(r, t, b.M[0, 0], [tm], [I / m])
    grad(r, t, b.pos.sum(), [tx], [np.ones(2)])
    g = torch.autograd.grad(b.M[0, 0] / m + (b.pos[0] + 2 * b.pos[1]) * s, tv)
    h = 1e-5 * s * (1 + np.ptp(V) / s)
    i, j = rng.randrange(len(V)), rng.randrange(2)

    def f(e):
        Q = V.copy()
        Q[i, j] += e
        cc = area_centroid(Q)[1]
        return polygon_inertia(Q, 1.) + (cc[0] + 2 * cc[1]) * s
    fd = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
    sc = max(float(q.abs().max()) for q in g) + abs(fd) + np.ptp(V) / len(V) * .1 + 1e-12
    r.count('derivatives by vertex')
    if abs(float(g[i][j]) - fd) > 1e-4 * sc:
        r.fail('derivative of inertia and position by a vertex is %.8g instead of %.8g' % (float(g[i][j]), fd))


def grad(r, what, y, xs, refs):
    import torch
    for x, ref in zip(xs, refs):
        g = torch.autograd.grad(y, x, retain_graph=True, allow_unused=True)[0]
        r.count('derivatives')
        ref = np.asarray(ref, float)
        if g is None or np.abs(g.numpy() - ref).max() > 1e-8 * (1e-12 + np.abs(ref).max()):
            r.fail('%s: a derivative of the mass properties is %s instead of %s' % (what, None if g is None else g.tolist(), ref.tolist()))


def run_world_M(rng, r):
    from phys import Ref
    from scenes import make_world, rand_body
    B = [rand_body(rng, 200 * i, rng.uniform(-50, 50)) for i in range(rng.randint(1, 5))]
    spec = {'bodies': B, 'joints': []}
    w = make_world(spec)
    ref = Ref(spec)
    r.events += 1
    M = w.M().detach().numpy()
    if M.shape != (3 * len(B),) * 2 or np.abs(M - np.diag(ref.Md)).max() > 1e-9 * ref.Md.max():
        r.fail('mass matrix of the world is not that of its bodies')


NEED = {k: 100 for k in ('circle', 'rect', 'hull', 'rect-as-hull', 'world', 'derivatives by vertex')}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
