"""C16: symmetries of the equations of motion"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import copy
import math
import random
from geom import rot, poly_dist, separation, lower_separation
from phys import Ref, Snap, Stop, monitor_engine
from scenes import make_world, init_pose, rescale, mass_of

ID = 'C16'
RULE = ('random frictionless scenes (any shapes, joints, forces) and frictional ones of circles, each simulated next to a '
        'transformed twin: translated, rotated, reflected, boosted to another inertial frame, with bodies and joints reordered, '
        'in other units of mass, length and time; states compared step by step after transforming back; distinct = scene and '
        'transformation, non-trivial when contacts or joints acted')
ASSUME = ['frictionless or circle-only scenes, where the velocities are unique', 'the LCP solver is given 60 iterations',
          'comparison ends at steps whose discrete outcome (contacts, step length) sits on a threshold']
TR = ['translate', 'rotate', 'reflect', 'boost', 'reorder', 'mass', 'length', 'time']


def gen(rng, tier):
    n = 800 if tier == 'quick' else 8000
    out = []
    for i in range(n):
        t = TR[i % len(TR)]
        fr = rng.random() < .35
        kinds = ['collide', 'free', 'linkage'] if t in ('boost',) else ['collide', 'free', 'linkage', 'box', 'chain', 'mixed', 'floor']
        k = rng.choice(kinds)
        if fr:
            c = circles(rng, tier)
        else:
            c = sim.workload(rng, tier, 1, kinds=[k], demos=False, scales=False, steps=45, mu=0.)[0]
            if k == 'chain' or k == 'mixed':
                for b in c['scene']['bodies']:
                    b['mu'] = 0.
        c['scene'].get('world', {}).pop('tol', None)
        c['tr'] = t
        c['fric'] = fr
        c['seed'] = rng.randrange(2 ** 31)
        # position correction moves by the solution of an LCP without a time unit
        c['post_stab'] = rng.random() < .15 and t != 'time'
        if t == 'rotate':      # held coordinates are not a rotation-invariant thing
            c['scene']['joints'] = [j for j in c['scene'].get('joints', ()) if j['k'] not in 'xy']
        out.append(c)
    return out


def circles(rng, tier):
    from scenes import scene
    s = scene(rng, rng.choice(['collide', 'collide', 'free', 'linkage']), kinds='c')
    return {'scene': s, 'steps': 45}


def prepare(spec):
    """Forces of every body as plain constant/pulsed/oscillating vectors."""
    s = copy.deepcopy(spec)
    for b in s['bodies']:
        out = []
        for f in b.get('forces', ()):
            k = f['k']
            if k == 'gravity':
                out.append({'k': 'const', 'vec': [0., 0., 1.], 'mult': f['g'] * mass_of(b)})
            elif k == 'down':
                out.append({'k': 'const', 'vec': [0., 0., 1.], 'mult': f['mult']})
            elif k in ('vert', 'hor', 'rotimp'):
                vec = {'vert': [0., 0., 1.], 'hor': [0., 1., 0.], 'rotimp': [1., 0., 0.]}[k]
                out.append({'k': 'pulse', 'vec': vec, 'mult': f['mult'], 't0': 0., 't1': .1})
            else:
                out.append(f)
        for f in out:
            if f['k'] == 'pulse':      # not exactly at the start of a step
                f['t0'], f['t1'] = f['t0'] - 1.2345e-5, f['t1'] + 1.2345e-5
        b['forces'] = out
        b.setdefault('vel', [0., 0., 0.])
    return s


def transform(spec, t, rng):
    """(transformed spec, function taking the twin's snapshot back)."""
    s = copy.deepcopy(spec)
    B = s['bodies']
    if t in ('translate', 'rotate', 'reflect'):
        d = np.array([rng.uniform(-500, 500), rng.uniform(-500, 500)])
        a = rng.uniform(-3, 3) if t == 'rotate' else 0.
        R = rot(a)
        if t == 'reflect':
            R = np.array([[1., 0.], [0., -1.]])
        sg = np.linalg.det(R)
        X = lambda x: (R @ np.asarray(x, float) + d).tolist()
        D = lambda v: (R @ np.asarray(v, float)).tolist()
        for b in B:
            if 'verts' in b:
                b['ref'] = X(b['ref'])
                # body frame: turned by the pose instead of by new vertices
                if t == 'rotate':
                    V = b['verts']
                    # keep vertices, move reference so that the centroid lands right
                    p = init_pose(spec['bodies'][B.index(b)])
                    from geom import area_centroid
                    c = area_centroid(np.array(V))[1]
                    b['ref'] = (np.asarray(X(p[1:])) - c).tolist()
                    b['rot'] = b.get('rot', 0.) + a
                else:
                    if t == 'reflect':
                        b['verts'] = [D(v) for v in b['verts']][::-1]
                        b['rot'] = -b.get('rot', 0.)
            else:
                p = b['pos']
                b['pos'] = [sg * p[0] + a] + X(p[1:])
            v = b['vel']
            b['vel'] = [sg * v[0]] + D(v[1:])
            for f in b['forces']:
                f['vec'] = [sg * f['vec'][0]] + D(f['vec'][1:])
        for j in s.get('joints', ()):
            if 'pos' in j:
                j['pos'] = X(j['pos'])

        def back(p, v, t_):
            q, w = p.copy(), v.reshape(-1, 3).copy()
            q[:, 0] = sg * (q[:, 0] - a)
            q[:, 1:] = (q[:, 1:] - d) @ R
            w[:, 0] *= sg
            w[:, 1:] = w[:, 1:] @ R
            return q, w
        return s, back, {}
    if t == 'boost':
        u = np.array([rng.uniform(-80, 80), rng.uniform(-80, 80)])
        for b in B:
            b['vel'] = [b['vel'][0], b['vel'][1] + u[0], b['vel'][2] + u[1]]

        def back(p, v, t_):
            q, w = p.copy(), v.reshape(-1, 3).copy()
            q[:, 1:] -= u * t_
            w[:, 1:] -= u
            return q, w
        return s, back, {}
    if t == 'reorder':
        o = list(range(len(B)))
        rng.shuffle(o)
        inv = {b: i for i, b in enumerate(o)}
        s['bodies'] = [B[i] for i in o]
        J = s.get('joints', [])
        for j in J:
            for k in ('b1', 'b2'):
                if j.get(k) is not None:
                    j[k] = inv[j[k]]
        rng.shuffle(J)
        s['no_contact'] = [[inv[a], inv[b]] for a, b in s.get('no_contact', ())]
        o = np.array([inv[i] for i in range(len(B))])
        return s, (lambda p, v, t_: (p[o], v.reshape(-1, 3)[o])), {}
    if t == 'mass':
        k = rng.choice([.1, .5, 3., 20.])
        for b in B:
            b['mass'] = mass_of(b) * k
            for f in b['forces']:
                f['mult'] *= k
        return s, (lambda p, v, t_: (p, v.reshape(-1, 3))), {}
    if t == 'length':
        k = rng.choice([.001, .01, .1, .4, 4., 50.])
        s = rescale(s, k)
        D = np.array([1., k, k])
        return s, (lambda p, v, t_: (p / D, v.reshape(-1, 3) / D)), {}
    if t == 'time':
        k = rng.choice([.2, .5, 3.])      # new time unit: 1/k of the old one
        w = s.setdefault('world', {})
        w['dt'] = w.get('dt', 1 / 30.) * k
        for b in B:
            b['vel'] = [x / k for x in b['vel']]
            for f in b['forces']:
                f['mult'] /= k * k
                if f['k'] == 'pulse':
                    f['t0'], f['t1'] = f['t0'] * k, f['t1'] * k
                if f['k'] == 'sin':
                    f['w'] /= k
        return s, (lambda p, v, t_: (p, v.reshape(-1, 3) * k)), {'time': k}
    raise ValueError(t)


def on_threshold(ref, p, eps, tol, L):
    """Is some pair so close to a threshold that rounding may decide?"""
    for i in range(ref.n):
        for j in range(i):
            A, B = ref.shapes[i], ref.shapes[j]
            if frozenset((i, j)) in ref.excl or lower_separation(A, p[i], B, p[j]) > 2 * eps:
                continue
            s = separation(A, p[i], B, p[j])
            if abs(s - eps) < 1e-4 * L:
                return True
            if A.t != 'circle' and B.t != 'circle':
                # vertex against vertex, or an end of a contact stretch near the margin
                if s > 0 and poly_dist(A.verts(p[i]), B.verts(p[j]))[1] == 'vv':
                    return True
    return False


NAMES = {'translate': 'translated', 'rotate': 'rotated', 'reflect': 'reflected', 'boost': 'moving',
         'reorder': 'reordered', 'mass': 'rescaled (mass)', 'length': 'rescaled (length)',
         'time': 'rescaled (time)'}


def run(case, r):
    twin(case, r, transform, NAMES)


def twin(case, r, transform, names):
    rng = random.Random(case['seed'])
    spec = prepare(case['scene'])
    t = case['tr']
    s2, back, meta = transform(spec, t, rng)
    r.key = [spec['kind'], t, case['fric'], spec['bodies'][-1]]
    ref = Ref(spec)
    kt = meta.get('time', 1.)
    E = sim.fine_engine()
    la, lb = [], []
    A = make_world(spec, engine=monitor_engine(la, limit=120, base=E), post_stab=case['post_stab'])
    B = make_world(s2, engine=monitor_engine(lb, limit=120, base=E), post_stab=case['post_stab'])
    L = 1.
    if 'after' in meta:
        meta['after'](B)
    acted = 0
    try:
        for i in range(case['steps']):
            random.seed(i)
            A.step()
            random.seed(i)
            B.step()
            a, b = Snap(A), Snap(B)
            q, w = back(b.p, b.v, b.t / kt)
            r.events += 1
            r.count('steps ' + t)
            v = a.v.reshape(-1, 3)
            ext = np.array([S.extent for S in ref.shapes])[:, None]
            sc = 1e-6 + np.abs(v[:, 1:]).max() + np.abs(v[:, :1] * ext).max() + A.dt * np.abs(ref.force(a.t) / ref.Md).max()
            if t == 'boost':
                sc += 100.
            if abs(a.t - b.t / kt) > 1e-9:
                # one of them halved the step once more: near the penetration tolerance
                r.count('ended: other step length ' + t)
                return
            dv = max(np.abs(v[:, 1:] - w[:, 1:]).max(), np.abs((v - w)[:, :1] * ext).max()) / sc
            dp = max(np.abs((a.p - q)[:, 1:]).max(), np.abs((a.p - q)[:, :1] * ext).max()) / (sc * (A.dt + a.t) + 1)
            r.maxi('difference', max(dv, dp))
            act = len(la[-1:]) and la[-1]['nc']
            if max(dv, dp) > 1e-6:
                if len(A.contacts) != len(B.contacts) or la[-1]['nc'] != lb[-1]['nc']:
                    r.count('ended: other contacts ' + t)
                    return
                r.fail('step %d: the %s twin differs by %.3g (velocity) and %.3g (pose)' % (
                    i, names[t], dv, dp), v=v, w=w, contacts=a.contacts)
                return
            if max(dv, dp) > 1e-7:
                r.count('steps with a difference above 1e-7')
            if act or ref.joints:
                r.nontrivial = True
                r.count('steps with contacts or joints')
            if act:
                r.count('contact steps ' + t)
            if len(A.contacts) != len(B.contacts):
                if not on_threshold(ref, a.p, A.eps, A.tol, L) and case['fric']:
                    r.fail('step %d: the twin of a circle scene sees %d contacts instead of %d' % (i, len(B.contacts), len(A.contacts)))
                r.count('ended: other contacts ' + t)
                return
            act = 0
    except Stop:
        r.count('ended: too many attempts')


def aggregate(specs, results, counters):
    """Runs may end early only now and then."""
    n = sum(1 for d in results if d and d['status'] == 'ok') / len(TR)
    out = []
    for k in ['ended: other %s %s' % (w, t) for w in ('step length', 'contacts') for t in TR]:
        if counters.get(k, 0) > 3 + .06 * n:
            i = next(i for i, d in enumerate(results) if d and d['counters'].get(k))
            out.append((i, '%d of %d twins part from their originals (%s)' % (counters[k], n, k)))
    return out


NEED = {'contact steps ' + t: 40 for t in TR}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
