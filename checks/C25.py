"""C25: the alternative (ODE) contact handler on discs"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import math
import random
import numpy as np
import sim
from phys import Snap, Stop, contacts_np, monitor_engine, npv
from scenes import make_body, make_world

ID = 'C25'
RULE = ('crowds of discs in random poses in worlds with the ODE contact handler, every reported contact and unreported pair judged; frictionless '
        'scenes of discs simulated with both handlers and compared step by step; distinct = crowd or scene, non-trivial when there was a contact')
ASSUME = ['the ODE handler works with the sum of the margins of both bodies, so the default one is given twice the margin',
          'discs only: contacts of boxes are those of the three-dimensional ODE and not exact', 'body margins equal to the margin of the world']
NEED = {'contacts judged': 600, 'pairs apart': 600, 'excluded pairs that touch': 20, 'steps compared': 1500, 'steps with contacts compared': 200}


def gen(rng, tier):
    k = 1 if tier == 'quick' else 15
    out = [{'mode': 'find', 'seed': rng.randrange(2 ** 31)} for _ in range(400 * k)]
    for c in sim.workload(rng, tier, 120 * k, kinds=['collide', 'crowd'], demos=False, shapes='c', mu=0.):
        c.update(mode='same', steps=60, post_stab=rng.random() < .2, strict=rng.random() < .8)
        out.append(c)
    return out


def find(case, r, rng):
    from lcp_physics.physics.world import World
    eps = rng.choice([.1, .1, .02, .5])
    n = rng.choice([2, 2, 3, 6, 9])
    R = [rng.uniform(4, 30) for _ in range(n)]
    off = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * rng.choice([0, 100, 3000])
    P = []
    for i in range(n):
        if i and rng.random() < .7:
            j = rng.randrange(i)
            a = rng.choice([rng.uniform(0, 6.28), rng.randrange(4) * math.pi / 2])
            g = rng.choice([0, -10 ** rng.uniform(-6, .5), rng.uniform(0, 2) * eps, 2 * eps * (1 - 1e-4), 2 * eps * (1 + 1e-4), rng.uniform(2, 9) * eps,
                            -.5 * min(R[i], R[j])])
            P.append(P[j] + (R[i] + R[j] + g) * np.array([math.cos(a), math.sin(a)]))
        else:
            P.append(off + np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * 60)
    bodies = [make_body({'t': 'circle', 'pos': [rng.uniform(-4, 4)] + list(p), 'rad': q, 'eps': eps}) for p, q in zip(P, R)]
    excl = set()
    for _ in range(rng.choice([0, 0, 1, 3])):
        i, j = rng.sample(range(n), 2)
        bodies[i].add_no_contact(bodies[j])
        excl.add(frozenset((i, j)))
    w = World(bodies, contact_callback='OdeContactHandler', eps=eps, strict_no_penetration=False)
    r.key = [case['seed']]
    for q in range(3):
        if q:       # elsewhere
            d = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) * 50
            for i in range(n):
                P[i] = P[i] + d + (q == 2) * np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)])
                bodies[i].set_p(bodies[i].p.new_tensor([rng.uniform(-4, 4)] + list(P[i])))
            w.find_contacts()
        C = contacts_np(w)
        got = {}
        for c in C:
            if c[4] == c[5] or frozenset(c[4:6]) in got:
                r.fail('discs %s are reported twice, or with themselves' % (c[4:6],))
                return
            got[frozenset(c[4:6])] = c
        for i in range(n):
            for j in range(i):
                r.events += 1
                k = frozenset((i, j))
                d = float(np.linalg.norm(P[i] - P[j]))
                sep = d - R[i] - R[j]
                if k in excl:
                    r.count('excluded pairs that touch', sep < 0)
                    if k in got:
                        r.fail('discs %d and %d must not touch, yet are reported' % (i, j))
                        return
                    continue
                if k not in got:
                    r.count('pairs apart')
                    if sep < 2 * eps - 1e-7:
                        r.fail('discs %d and %d at distance %.6g are not reported (margins %g)' % (i, j, sep, eps))
                        return
                    continue
                r.count('contacts judged')
                r.nontrivial = True
                nrm, p1, p2, pen, a, b = got[k]
                if sep > 2 * eps + 1e-7:
                    r.fail('discs %d and %d at distance %.6g are reported (margins %g)' % (i, j, sep, eps))
                    return
                if d < 1e-6:
                    continue
                want = (P[a] - P[b]) / d
                if abs(pen + sep) > 1e-7:
                    r.fail('discs %d and %d overlap by %.9g, reported %.9g' % (i, j, -sep, pen))
                    return
                if np.abs(nrm - want).max() > 1e-6:
                    r.fail('the normal from disc %d to disc %d is %s, reported %s' % (b, a, want, nrm))
                    return
                e = max(abs(p1 @ np.array([want[1], -want[0]])), np.abs(p1 + P[a] - p2 - P[b]).max())
                dd = max(abs(-p1 @ want - R[a]), abs(p2 @ want - R[b])) - max(abs(sep), 2 * eps)
                if e > 1e-6 or dd > 1e-6:
                    r.fail('contact point %s of disc %d, %s of disc %d: not between the surfaces' % (p1, a, p2, b))
                    return
        if len(got) != len(C):
            r.fail('a contact is reported for an unknown pair')


def same(case, r):
    spec = case['scene']
    eps = spec.get('world', {}).get('eps', .1)
    sp2 = dict(spec, world=dict(spec.get('world', {}), eps=2 * eps))
    kw = dict(post_stab=case['post_stab'], strict_no_penetration=case['strict'])
    for s in (spec, sp2):
        for b in s['bodies']:
            b['eps'] = eps
    L = eps / .1
    random.seed(1)
    a = make_world(spec, engine=monitor_engine([], limit=150), contact_callback='OdeContactHandler', **kw)
    random.seed(1)
    b = make_world(sp2, engine=monitor_engine([], limit=150), **kw)
    r.key = [spec['bodies'][-1]]
    try:
        for i in range(case['steps']):
            nc = len(b.contacts)
            a.step()
            b.step()
            A, B = Snap(a), Snap(b)
            r.events += 1
            r.count('steps compared')
            if nc:
                r.count('steps with contacts compared')
                r.nontrivial = True
            if abs(a.t - b.t) > 1e-9:
                # a disc at the very limit of the tolerance
                r.count('stopped: other step length')
                return
            sv = 1e-9 + np.abs(B.v).max()
            e = max(np.abs(A.p - B.p).max() / L / 10, np.abs(A.v - B.v).max() / sv)
            r.maxi('difference', e)
            if e > 1e-6:
                r.fail('step %d: the state differs from that with the default handler by %.3g' % (i, e), p=A.p, q=B.p)
                return
    except Stop:
        pass


def run(case, r):
    if case['mode'] == 'find':
        find(case, r, random.Random(case['seed']))
    else:
        same(case, r)


if __name__ == '__main__':
    common.main(sys.modules[__name__])
