"""C19: equivalent ways of writing a scene"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import copy
import math
import random
import C16
from geom import area_centroid
from phys import Ref, Snap, Stop, npv
from scenes import make_world, make_body, make_joint, init_pose, mass_of, e_of, mu_of

ID = 'C19'
RULE = ('random scenes with some values integral or at their defaults, each built twice: once in the plain way and once with every '
        'argument spelled at random (list, tuple, array, tensor, integer, float, with or without angle, omitted or explicit, '
        'positional or by name, engine and contact handler by name or class); states compared bit by bit; rectangles replaced by '
        'polygons, vertices rolled, reference points moved, constraints and forces split, states set instead of constructed, '
        'single precision: motions compared; distinct = scene and variant')
ASSUME = ['tensors hold floating point numbers of one precision', 'twins that enter other numbers are frictionless scenes with unique velocities']
TW = ['rect-hull', 'roll', 'ref', 'split', 'forces', 'set']
NAMES = {'rect-hull': 'polygon-for-rectangle', 'roll': 'other-first-vertex', 'ref': 'other-reference-point',
         'split': 'split-constraint', 'forces': 'other-force', 'set': 'set-state'}
NEED = dict({'contact steps ' + t: 40 for t in TW}, **{'spelled bodies': 400, 'spelled steps': 1000, 'left out': 200, 'precision steps': 200})


def gen(rng, tier):
    n = 700 if tier == 'quick' else 10000
    out = []
    for i in range(n):
        if i % 2:
            while True:
                c = sim.workload(rng, tier, 1, kinds=['collide', 'floor', 'linkage', 'stack', 'mixed', 'chain', 'box'][i // 2 % 7:][:1],
                                 demos=False, steps=14)[0]
                if i % 8 != 3 or '*' not in c['scene'].get('kind', ''):     # single precision: scenes of ordinary size
                    break
            c['scene'].pop('world', None)
            integral(c['scene'], rng)
            c['mode'] = 'spell'
            if i % 8 == 3:
                c['mode'] = 'precision'
                c['steps'] = 30
                for b in c['scene']['bodies']:
                    b['mu'] = 0.
        else:
            t = TW[i // 2 % len(TW)]
            ks = ['collide', 'free', 'linkage', 'box', 'mixed', 'floor'] if t != 'split' else ['floor', 'box', 'mixed']
            if t == 'set':
                ks = ['collide', 'free', 'box', 'floor']
            c = sim.workload(rng, tier, 1, kinds=[rng.choice(ks)], demos=False, steps=40, mu=0.)[0]
            for b in c['scene']['bodies']:
                b['mu'] = 0.
            c['scene'].get('world', {}).pop('tol', None)
            c.update(mode='twin', tr=t, fric=False, post_stab=rng.random() < .15)
        c['seed'] = rng.randrange(2 ** 31)
        out.append(c)
    return out


def integral(s, rng):
    """Some values integral, some at their defaults."""
    joined = {k for j in s.get('joints', ()) for k in (j['b1'], j.get('b2')) if j['k'] in ('joint', 'fixed')}
    for i, b in enumerate(s['bodies']):
        if rng.random() < .5:
            b['vel'] = [float(round(v)) for v in b.get('vel', [0., 0., 0.])]
        if rng.random() < .3:
            b['vel'] = [0.] + b.get('vel', [0., 0., 0.])[1:]
        if rng.random() < .4:
            b['mass'] = rng.choice([1., 1., 2., 3.])
        if rng.random() < .3:
            b['e'] = rng.choice([.5, .5, 1., 0.])
        if rng.random() < .3:
            b['mu'] = rng.choice([.9, .9, 1., 0.])
        if rng.random() < .4 and '*' not in s.get('kind', ''):
            if b['t'] == 'circle':
                b['pos'] = [rng.choice([0., b['pos'][-3] if len(b['pos']) == 3 else 0.])] + [float(round(x)) for x in b['pos'][-2:]]
                b['rad'] = math.floor(b['rad']) * 1.
            elif b['t'] == 'rect' and i not in joined:
                b['dims'] = [math.floor(x) * 1. for x in b['dims']]
        for f in b.get('forces', ()):
            if rng.random() < .3 and 'mult' in f:
                f['mult'] = rng.choice([100., float(round(f['mult']))])


# ------------------------------------------------------------------- spelling
def num(x, rng):
    import torch
    k = rng.randrange(4)
    if k == 0 and float(x).is_integer():
        return int(x)
    if k == 1:
        return torch.tensor(float(x), dtype=torch.double)
    if k == 2:
        return np.float64(x)
    return float(x)


def vec(x, rng):
    import torch
    k = rng.randrange(5)
    if k == 0 and all(float(v).is_integer() for v in x):
        return [int(v) for v in x]
    if k == 1:
        return torch.tensor([float(v) for v in x], dtype=torch.double)
    if k == 2:
        return np.array(x, float)
    if k == 3:
        return tuple(float(v) for v in x)
    return [int(v) if float(v).is_integer() else float(v) for v in x]


DEFAULTS = {'vel': [0., 0., 0.], 'mass': 1., 'e': .5, 'mu': .9, 'eps': .1}


def spell_body(b, rng, r, colour):
    import torch
    from lcp_physics.physics.bodies import Circle, Rect, Hull
    r.count('spelled bodies')
    kw = []
    for k, n in (('vel', 'vel'), ('mass', 'mass'), ('e', 'restitution'), ('mu', 'fric_coeff'), ('eps', 'eps')):
        x = b.get(k, DEFAULTS[k])
        if x == DEFAULTS[k] and rng.random() < .6:
            r.count('left out')
            kw.append((n, None))
            continue
        if k == 'vel':
            x = vec(x[1:] if x[0] == 0 and rng.random() < .7 else x, rng)
        else:
            x = num(x, rng)
        kw.append((n, x))
    pos = b.get('pos')
    if pos is not None:
        pos = list(pos)
        if len(pos) == 3 and pos[0] == 0 and rng.random() < .7:
            pos = pos[1:]
        elif len(pos) == 2 and rng.random() < .5:
            pos = [0.] + pos
        pos = vec(pos, rng)
    if b['t'] == 'circle':
        cls, a, an = Circle, [pos, num(b['rad'], rng)], ['pos', 'rad']
    elif b['t'] == 'rect':
        cls, a, an = Rect, [pos, vec(b['dims'], rng)], ['pos', 'dims']
    else:
        V = [vec(v, rng) for v in b['verts']]
        k = rng.randrange(4)
        if k == 0:
            V = torch.tensor(b['verts'], dtype=torch.double)
        elif k == 1:
            V = np.array(b['verts'], float)
        elif k == 2:
            V = tuple(V)
        cls, a, an = Hull, [vec(b['ref'], rng), V], ['ref_point', 'vertices']
    if rng.random() < .3:
        d = dict(zip(an, a))
        a = []
    else:
        d = {}
        while kw and kw[0][1] is not None and rng.random() < .5:     # by position
            a.append(kw.pop(0)[1])
    d.update((n, x) for n, x in kw if x is not None)
    if colour:
        d['col'] = rng.choice([(1, 2, 3), [9, 9, 200]])
    if rng.random() < .2:
        d['thickness'] = rng.choice([0, 1, 3])
    it = list(d.items())
    rng.shuffle(it)
    body = cls(*a, **dict(it))
    if b['t'] == 'hull' and b.get('rot'):
        p = body.p.clone()
        p[0] = p[0] + b['rot']
        body.set_p(p)
    return body


def spell_force(f, rng):
    import torch
    from lcp_physics.physics import forces as F
    T = lambda v: torch.tensor(v, dtype=torch.double)
    k = f['k']
    if k == 'gravity':
        g = f['g']
        if g == 10. and rng.random() < .5:
            return F.Gravity()
        return F.Gravity(num(g, rng)) if rng.random() < .5 else F.Gravity(g=num(g, rng))
    m = num(f['mult'], rng)
    if k == 'down':
        c = rng.randrange(3)
        if c == 0:
            return F.ExternalForce(multiplier=m)
        fn = F.down_force if c == 1 else lambda t: T([0., 0., 1.])
    elif k in ('vert', 'hor', 'rotimp'):
        fn = {'vert': F.vert_impulse, 'hor': F.hor_impulse, 'rotimp': F.rot_impulse}[k]
        if rng.random() < .5:
            v = {'vert': [0., 0., 1.], 'hor': [0., 1., 0.], 'rotimp': [1., 0., 0.]}[k]
            fn = lambda t: T(v) if t < .1 else T([0., 0., 0.])
    else:
        v = T(f['vec'])
        fn = {'const': lambda t: v, 'pulse': lambda t: v if f['t0'] <= t < f['t1'] else T([0., 0., 0.]),
              'sin': lambda t: v * math.sin(f['w'] * t + f['ph'])}[k]
    if f['mult'] == 100. and rng.random() < .5:
        return F.ExternalForce(fn)
    return F.ExternalForce(fn, m) if rng.random() < .5 else F.ExternalForce(force_func=fn, multiplier=m)


def spell_joint(j, bodies, rng):
    from lcp_physics.physics import constraints as C
    if j['k'] != 'joint':
        return make_joint(j, bodies)
    b2 = None if j.get('b2') is None else bodies[j['b2']]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if rng.random() < .5:
            return C.Joint(bodies[j['b1']], b2, vec(j['pos'], rng))
        return C.Joint(body1=bodies[j['b1']], body2=b2, pos=vec(j['pos'], rng))


def spell_world(spec, rng, r):
    from lcp_physics.physics.world import World
    from lcp_physics.physics.engines import PdipmEngine
    from lcp_physics.physics.contacts import DiffContactHandler
    bodies = [spell_body(b, rng, r, rng.random() < .3) for b in spec['bodies']]
    later = []
    for b, d in zip(bodies, spec['bodies']):
        fs = [spell_force(f, rng) for f in d.get('forces', ())]
        if rng.random() < .3:
            later.append((b, fs))
        else:
            for f in fs:
                b.add_force(f)
    nc = [tuple(q) for q in spec.get('no_contact', ())]
    nc += [q for q in nc if rng.random() < .2]
    rng.shuffle(nc)
    for i, j in nc:
        if rng.random() < .5:
            i, j = j, i
        bodies[i].add_no_contact(bodies[j])
    joints = [spell_joint(j, bodies, rng) for j in spec.get('joints', ())]
    kw = {}
    opt = {'dt': 1 / 30., 'engine': rng.choice(['PdipmEngine', PdipmEngine]),
           'contact_callback': rng.choice(['DiffContactHandler', DiffContactHandler]), 'eps': .1, 'tol': 1e-6, 'fric_dirs': 2,
           'post_stab': False, 'strict_no_penetration': True}
    for k, v in opt.items():
        if rng.random() < .5:
            kw[k] = v
        else:
            r.count('left out')
    if not joints and rng.random() < .5:
        w = World(bodies, **kw)
    elif rng.random() < .2:
        w = World(bodies=bodies, constraints=tuple(joints), **kw)
    else:
        w = World(bodies, joints, **kw)
    for b, fs in later:
        for f in fs:
            b.add_force(f)
    return w


def attrs(b):
    out = {k: npv(getattr(b, k)) for k in ('p', 'v', 'M', 'pos', 'rot', 'mass', 'restitution', 'fric_coeff', 'eps')}
    if hasattr(b, 'verts'):
        out['verts'] = np.stack([npv(v) for v in b.verts])
    if hasattr(b, 'rad'):
        out['rad'] = npv(b.rad)
    return out


def spell(case, r):
    rng = random.Random(case['seed'])
    spec = case['scene']
    r.key = [case['seed']]
    r.nontrivial = True
    random.seed(0)
    A = make_world(spec)
    random.seed(0)
    B = spell_world(spec, rng, r)
    r.events += 1
    for i, (a, b) in enumerate(zip(A.bodies, B.bodies)):
        x, y = attrs(a), attrs(b)
        for k in x:
            if x[k].shape != y[k].shape and k not in ('mass', 'restitution', 'fric_coeff', 'eps', 'rad') or not np.array_equal(x[k].squeeze(), y[k].squeeze()):
                r.fail('body %d: %s is %s in one spelling and %s in another' % (i, k, x[k].tolist(), y[k].tolist()))
                return
            if getattr(b, k, None) is not None and k != 'verts' and getattr(b, k).dtype != getattr(a, k).dtype:
                r.fail('body %d: %s is of type %s in one spelling and %s in another' % (i, k, getattr(a, k).dtype, getattr(b, k).dtype))
                return
    for i in range(case['steps']):
        random.seed(i)
        A.step()
        random.seed(i)
        B.step()
        a, b = Snap(A), Snap(B)
        r.events += 1
        r.count('spelled steps')
        r.count('spelled steps with contacts', bool(a.contacts))
        d = max(np.abs(a.p - b.p).max(), np.abs(a.v - b.v).max())
        if d > 0 or a.t != b.t or len(a.contacts) != len(b.contacts):
            r.fail('step %d: the state differs by %.3g between two spellings of one scene' % (i, d))
            return


# ------------------------------------------------------------------- twins
def transform(spec, t, rng):
    s = copy.deepcopy(spec)
    B = s['bodies']
    same = lambda p, v, t_: (p, v.reshape(-1, 3))
    meta = {}
    u = min(1., s.get('world', {}).get('eps', .1) / .1)      # small scenes, small shifts
    if t == 'rect-hull':
        for b in B:
            if b['t'] == 'rect':
                q = init_pose(b)
                w, h = b.pop('dims')
                x, y = u * rng.uniform(-30, 30), u * rng.uniform(-30, 30)
                V = [[w / 2 + x, h / 2 + y], [-w / 2 + x, h / 2 + y], [-w / 2 + x, -h / 2 + y], [w / 2 + x, -h / 2 + y]]
                k = rng.randrange(4)
                b.pop('pos')
                b.update(t='hull', verts=V[k:] + V[:k], ref=[q[1] - x, q[2] - y], rot=q[0])
    elif t == 'roll':
        for b in B:
            if b['t'] == 'hull':
                k = rng.randrange(len(b['verts']))
                b['verts'] = b['verts'][k:] + b['verts'][:k]
    elif t == 'ref':
        for b in B:
            if b['t'] == 'hull':
                d = [u * rng.uniform(-200, 200), u * rng.uniform(-200, 200)]
                b['verts'] = [[x + d[0], y + d[1]] for x, y in b['verts']]
                b['ref'] = [b['ref'][-2] - d[0], b['ref'][-1] - d[1]]
    elif t == 'split':
        J = []
        for j in s.get('joints', ()):
            if j['k'] == 'total':
                k = ['x', 'y', 'rot']
                rng.shuffle(k)
                J += [{'k': q, 'b1': j['b1']} for q in k]
            else:
                J.append(j)
        s['joints'] = J
    elif t == 'forces':
        for b in B:
            out = []
            for f in b.get('forces', ()):
                if f['k'] == 'const' and f['vec'] == [0., 0., 1.]:
                    out.append({'k': 'gravity', 'g': f['mult'] / mass_of(b)})
                    continue
                a = rng.uniform(-1, 2)
                g = dict(f, mult=f['mult'] * (1 - a))
                out += [dict(f, mult=f['mult'] * a), g]
            rng.shuffle(out)
            b['forces'] = out
    elif t == 'set':
        P = [init_pose(b) for b in B]
        V = [list(b['vel']) for b in B]
        far = 3000. * max(1, round(s.get('world', {}).get('eps', .1) / .1))
        for i, b in enumerate(B):
            k = 'ref' if b['t'] == 'hull' else 'pos'
            b[k][-2] += far * (i % 5 + 1)
            b[k][-1] += far * (i // 5)
            if b['t'] == 'hull':
                b['rot'] = b.get('rot', 0.) + rng.uniform(-2, 2)
            elif len(b['pos']) == 3:
                b['pos'][0] += rng.uniform(-2, 2)
            b['vel'] = [0., 0., 0.]

        def after(w):
            import torch
            T = lambda x: torch.tensor(np.asarray(x, float).reshape(-1))
            w.set_p(T(P))
            w.set_v(T(V))
            w.find_contacts()
        meta['after'] = after
    return s, same, meta


# ------------------------------------------------------------------- precision
def precision(case, r):
    import torch
    rng = random.Random(case['seed'])
    spec = case['scene']
    r.key = [case['seed']]
    ref = Ref(spec)
    E = sim.fine_engine()
    A = make_world(spec, engine=E)
    over = {}
    for i, b in enumerate(spec['bodies']):
        o = {}
        for k in (('pos',) if 'pos' in b else ('ref',)):
            o[k] = torch.tensor(b[k], dtype=torch.float32)
        over[i] = o
    B = make_world(spec, engine=E, over=over, tol=1e-3)
    for w in (A, B):
        w.tol = 1e-3
    for i, b in enumerate(B.bodies):
        for k in ('p', 'v', 'M', 'mass', 'restitution', 'fric_coeff', 'eps'):
            if getattr(b, k).dtype != torch.float32:
                r.fail('body %d given in single precision has a %s of type %s' % (i, k, getattr(b, k).dtype))
                return
    for i in range(case['steps']):
        random.seed(i)
        A.step()
        random.seed(i)
        B.step()
        a, b = Snap(A), Snap(B)
        r.events += 1
        r.nontrivial = True
        if B.v.dtype != torch.float32:
            r.fail('step %d: the velocities are of type %s' % (i, B.v.dtype))
            return
        if abs(a.t - b.t) > 1e-9 or len(a.contacts) != len(b.contacts):
            r.count('ended: other contacts (precision)')
            return
        r.count('precision steps')
        ext = np.array([S.extent for S in ref.shapes])[:, None]
        v, q = a.v.reshape(-1, 3), b.v.reshape(-1, 3)
        sc = 1 + np.abs(v[:, 1:]).max() + np.abs(v[:, :1] * ext).max() + A.dt * np.abs(ref.force(a.t) / ref.Md).max()
        d = max(np.abs((v - q)[:, 1:]).max(), np.abs((v - q)[:, :1] * ext).max()) / sc
        r.maxi('difference of precisions', d)
        r.note = d
        if d > 1e-2:
            r.fail('step %d: single and double precision differ by %.3g' % (i, d))
            return
        if a.contacts:
            r.count('precision steps with contacts')


def run(case, r):
    if case['mode'] == 'spell':
        spell(case, r)
    elif case['mode'] == 'precision':
        precision(case, r)
    else:
        C16.twin(case, r, transform, NAMES)


def aggregate(specs, results, counters):
    n = sum(1 for d in results if d and d['status'] == 'ok') / 2 / len(TW)
    out = []
    for k in ['ended: other %s %s' % (w, t) for w in ('step length', 'contacts') for t in TW]:
        if counters.get(k, 0) > 3 + .06 * n:
            i = next(i for i, d in enumerate(results) if d and d['counters'].get(k))
            out.append((i, '%d of %d twins part from their originals (%s)' % (counters[k], n, k)))
    return out


if __name__ == '__main__':
    common.main(sys.modules[__name__])
