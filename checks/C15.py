"""C15: determinism and isolation"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import copy
import random
from phys import Snap, npv
from scenes import make_world, make_body, make_joint

ID = 'C15'
RULE = ('random scenes run twice, run with other random states, run interleaved with one or two other worlds of other sizes '
        '(each reseeded before its steps), and built from tensors, lists and force objects that are compared with deep copies '
        'afterwards; whole state trajectories compared bit by bit; distinct = scene and mode')
ASSUME = ['circles against polygons pick a random start vertex: other random states may change rounding there, so such runs are '
          'compared up to the first few steps after such a contact to 1e-7']
MODES = ['repeat', 'interleave', 'interleave', 'seed', 'inputs', 'inputs', 'solver', 'reuse']


def gen(rng, tier):
    n = 240 if tier == 'quick' else 5000
    out = sim.workload(rng, tier, n, kinds=sim.KINDS + ['linkage', 'free'], steps=40)
    for i, c in enumerate(out):
        c['mode'] = MODES[i % len(MODES)]
        c['post_stab'] = rng.random() < .25
        c['fixed'] = rng.random() < .2
        c['other'] = rng.randrange(2 ** 31)
    return out


def traj(w, case, n, seed=1, between=None):
    out = []
    for i in range(n):
        random.seed('%d/%d' % (seed, i))
        if i and len(out) > 1 and out[-1].t - out[-2].t < 1e-3 * w.dt:
            break          # crawling
        w.step(fixed_dt=True) if case['fixed'] else w.step()
        out.append(Snap(w))
        if between:
            between(i)
    return out


def first_diff(a, b):
    """Step at which two trajectories differ, and by how much."""
    for i, (x, y) in enumerate(zip(a, b)):
        d = max(np.abs(x.p - y.p).max(), np.abs(x.v - y.v).max(), abs(x.t - y.t))
        if not d == 0:
            return i, d
        if len(x.contacts) != len(y.contacts):
            return i, float('inf')
        for c, e in zip(x.contacts, y.contacts):
            if c[4:] != e[4:] or c[3] != e[3] or any((u != v).any() for u, v in zip(c[:3], e[:3])):
                return i, float('nan')
    return None


def run(case, r):
    spec, mode = case['scene'], case['mode']
    r.key = [spec['kind'], mode, spec['bodies'][-1], case['other']]
    r.nontrivial = True
    n = case['steps']
    # (a fixed-length step of a lasting contact crawls in strict mode)
    build = lambda: make_world(spec, post_stab=case['post_stab'], strict_no_penetration=not case['fixed'])
    if mode == 'solver':
        return run_solver(case, r)
    A = traj(build(), case, n)
    r.count('contacts seen', sum(len(s.contacts) for s in A))
    if mode == 'repeat':
        B = traj(build(), case, n)
        report(r, A, B, 'the same simulation run twice')
    elif mode == 'interleave':
        rng = random.Random(case['other'])
        others = sim.workload(rng, 'quick', rng.choice([1, 2]), kinds=[rng.choice(sim.KINDS + ['linkage', 'free'])], demos=False)
        W = [make_world(o['scene']) for o in others]
        logs = [[] for _ in W]

        def between(i):
            for w, l in zip(W, logs):
                if len(l) > 1 and l[-1].t - l[-2].t < 1e-3 * w.dt:
                    continue
                random.seed('o%d' % i)
                w.step()
                l.append(Snap(w))
        B = traj(build(), case, n, between=between)
        report(r, A, B, 'a simulation next to others and alone')
        for o, l in zip(others, logs):
            w = make_world(o['scene'])
            m = []
            for i in range(len(l)):
                random.seed('o%d' % i)
                w.step()
                m.append(Snap(w))
            report(r, l, m, 'a simulation next to others and alone')
    elif mode == 'reuse':
        B = traj(reused(case, r), case, n)
        report(r, A, B, 'a world built from lists and arrays that are used for something else afterwards')
    elif mode == 'seed':
        B = traj(build(), case, n, seed=2)
        t = [b['t'] for b in spec['bodies']]
        k = next((i for i, s in enumerate(A) if any((t[c[4]] == 'circle') != (t[c[5]] == 'circle') for c in s.contacts)), None)
        if k is None:
            report(r, A, B, 'the same simulation under two random states')
        else:
            k = min(k + 2, len(A), len(B))
            r.events += k
            sc = [1 + np.abs(s.p).max() + np.abs(s.v).max() for s in A[:k]]
            d = [max(np.abs(x.p - y.p).max(), np.abs(x.v - y.v).max()) / q for x, y, q in zip(A[:k], B[:k], sc)]
            if max(d + [0]) > 1e-7:
                r.fail('the random state changes a simulation: states differ by %.3g (relative) at step %d' % (max(d), int(np.argmax(d))))
            r.count('compared up to rounding')
    else:
        run_inputs(case, r, A, n)


def report(r, A, B, what):
    r.events += len(A)
    r.count('trajectories compared')
    if len(A) != len(B):
        r.fail('%s: one goes on for %d steps, the other for %d' % (what, len(A), len(B)))
        return
    d = first_diff(A, B)
    if d is not None:
        r.fail('%s: the states differ at step %d by %.3g' % (what, d[0], d[1]))


def reused(case, r):
    """A world built from lists and arrays which are overwritten as soon as
    the body or joint they were given to exists."""
    from lcp_physics.physics.world import World
    rng = random.Random(case['other'])
    spec = case['scene']
    buf = {}

    def lend(v):
        v = [float(x) for x in v]
        k = rng.randrange(3)
        if k == 0:
            return v
        if k == 1:
            return np.array(v)
        a = buf.setdefault(len(v), np.zeros(len(v)))     # one array used over and over
        if any(a is b for b in lent):
            return np.array(v)
        a[:] = v
        return a

    def take_back():
        for a in lent:
            a[:] = [71.5 + i for i in range(len(a))]
            r.count('lists and arrays taken back')
        del lent[:]
    lent = []
    bodies = []
    for b in spec['bodies']:
        o = {}
        for k in ('pos', 'vel', 'dims', 'ref'):
            if k in b:
                o[k] = lend(b[k])
                lent.append(o[k])
        if 'verts' in b:
            o['verts'] = [lend(v) for v in b['verts'][:1]]
            lent.extend(o['verts'])
            for v in b['verts'][1:]:
                o['verts'].append(lend(v))
                lent.append(o['verts'][-1])
        bodies.append(make_body(b, o))
        take_back()
    for i, j in spec.get('no_contact', ()):
        bodies[i].add_no_contact(bodies[j])
    joints = []
    for j in spec.get('joints', ()):
        q = dict(j)
        if 'pos' in j:
            q['pos'] = lend(j['pos'])
            lent.append(q['pos'])
        joints.append(make_joint(q, bodies))
        take_back()
    return World(bodies, joints, post_stab=case['post_stab'], strict_no_penetration=not case['fixed'], **spec.get('world', {}))


def run_inputs(case, r, A, n):
    """Everything handed in is the same afterwards; sharing it does no harm."""
    import torch
    from lcp_physics.physics.world import World
    from lcp_physics.physics import forces as FO
    spec = case['scene']
    T = lambda v: torch.tensor(v, dtype=torch.double)
    over, given = {}, []
    for i, b in enumerate(spec['bodies']):
        o = {}
        for k in ('pos', 'vel', 'mass', 'e', 'mu', 'rad', 'dims', 'ref'):
            if k in b and (k not in ('e', 'mu', 'mass') or random.random() < .7):
                o[k] = T(b[k])
                given.append(o[k])
        if 'verts' in b:
            o['verts'] = [T(v) for v in b['verts']]
            given += o['verts']
        over[i] = o
    before = [g.clone() for g in given]
    vl = [(o['verts'], list(o['verts'])) for o in over.values() if 'verts' in o]
    const = [(k, getattr(FO.ExternalForce, k), getattr(FO.ExternalForce, k).clone()) for k in ('DOWN', 'RIGHT', 'ROT', 'ZEROS')]
    spec_copy = copy.deepcopy(spec)
    rs = torch.random.get_rng_state()
    dt0 = torch.get_default_dtype()

    def build():
        bodies = [make_body(b, over[i]) for i, b in enumerate(spec['bodies'])]
        for i, j in spec.get('no_contact', ()):
            bodies[i].add_no_contact(bodies[j])
        joints = [make_joint(j, bodies) for j in spec.get('joints', ())]
        jl, bl = list(joints), list(bodies)
        w = World(bodies, joints, post_stab=case['post_stab'], strict_no_penetration=not case['fixed'],
                  **spec.get('world', {}))
        return w, (bodies, bl, joints, jl)
    w1, k1 = build()
    w2, k2 = build()       # a second world sharing every tensor
    B, C = [], []
    B = traj(w1, case, n // 2)
    C = traj(w2, case, n // 2)
    report(r, B, C, 'two worlds built from the same tensors')
    t = [b['t'] for b in spec['bodies']]
    # values handed in as tensors or as numbers: the same simulation
    report(r, A[:len(B)], B, 'a world built from tensors and one built from numbers')
    bad = [i for i, (g, b) in enumerate(zip(given, before)) if not torch.equal(g, b)]
    r.events += len(given)
    r.count('inputs compared', len(given))
    if bad:
        r.fail('a tensor handed in by the user was modified: %s became %s' % (before[bad[0]].tolist(), given[bad[0]].tolist()))
    if any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in vl):
        r.fail('the vertex list handed in by the user was modified')
    for bodies, bl, joints, jl in (k1, k2):
        if bodies != bl or joints != jl:
            r.fail('the body or joint list handed in by the user was modified')
    for k, t0, c in const:
        if getattr(FO.ExternalForce, k) is not t0 or not torch.equal(t0, c):
            r.fail('the shared force constant %s was modified' % k)
    if spec != spec_copy:
        r.fail('a number or list handed in by the user was modified')
    if not torch.equal(rs, torch.random.get_rng_state()) or torch.get_default_dtype() != dt0:
        r.fail('global torch state was changed')
    if World([make_body(spec['bodies'][0])]).joints:
        r.fail('a world created without joints has joints')


def run_solver(case, r):
    """LCP calls in any order give the same answers and leave their inputs alone."""
    import torch
    import lcporacle as O
    import lcpcheck as K
    from lcp_physics.lcp.lcp import LCPFunction
    rng = random.Random(case['other'])
    P = []
    while len(P) < 6:
        s = K.gen_spec(rng)
        insts, _ = K.draw(s['seed'], s['kind'], s['nz'], s['m'], s['neq'], s['nb'])
        if insts is not None:
            P.append(O.tensors([i for i, _ in insts]))
    shared = LCPFunction(max_iter=30)
    copies = [[t.clone() for t in p] for p in P]

    def solve(f, p):
        q = [t.clone().requires_grad_(t.numel() > 0) for t in p]
        x = f(*q)
        return x.detach(), q, x
    alone = [solve(LCPFunction(max_iter=30), p)[0] for p in P]
    galone = []
    for p in P:
        x, q, y = solve(LCPFunction(max_iter=30), p)
        galone.append(torch.autograd.grad(y.sum(), [t for t in q if t.numel()]))
    order = [rng.randrange(len(P)) for _ in range(14)]
    pend = []
    for k in order:
        x, q, y = solve(shared, P[k])
        r.events += 1
        r.count('solves')
        if not torch.equal(x, alone[k]):
            r.fail('an LCP has another solution after others were solved (difference %.3g)' % (x - alone[k]).abs().max())
        pend.append((k, q, y))
        rng.random() < .5 and shared(*P[rng.randrange(len(P))])
    rng.shuffle(pend)
    for k, q, y in pend:          # backward long after, in another order
        g = torch.autograd.grad(y.sum(), [t for t in q if t.numel()])
        r.events += 1
        r.count('delayed gradients')
        for a, b in zip(g, galone[k]):
            d = float((a - b).abs().max() / (1e-6 + b.abs().max()))
            if not d < 1e-6 and torch.isfinite(b).all():
                r.fail('the gradient of an LCP changes when others are solved in between (relative %.3g)' % d)
    for p, c in zip(P, copies):
        if any(not torch.equal(a, b) for a, b in zip(p, c)):
            r.fail('the solver modified its inputs')


NEED = {'trajectories compared': 100, 'contacts seen': 300, 'inputs compared': 200, 'solves': 200, 'delayed gradients': 200}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
