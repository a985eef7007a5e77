"""C21: what position correction (post stabilization) does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import math
import random
import numpy as np
import lcporacle
import sim
from phys import Ref, Snap, Stop, contacts_np, monitor_engine, npv
from geom import rot
from scenes import init_pose, make_world, scene as rand_scene

ID = 'C21'
RULE = ('random scenes (joints of every kind, contacts, both; initial velocities that violate constraints) stepped with position '
        'correction; state recorded when the engine is asked for a correction and after it; distinct = scene; drift of '
        'joints measured with and without correction at two step lengths')
ASSUME = ['the steps before the correction are those judged by the other checks']
TOL = 1e-6
NEED = {'corrections: joints only': 2000, 'corrections: contacts only': 20, 'corrections: joints and contacts': 500,
        'pushing contacts': 100, 'corrections: nothing to correct': 20, 'drift comparisons': 30}


def gen(rng, tier):
    n = 260 if tier == 'quick' else 5000
    out = sim.workload(rng, tier, n, kinds=['chain', 'mixed', 'linkage', 'collide', 'stack', 'box', 'floor', 'linkage', 'crowd'],
                       steps=40 if tier == 'quick' else 80)
    for c in out:
        c['t'] = 'scene'
        c['fixed'] = rng.random() < .3
        c['strict'] = rng.random() < .7
        if rng.random() < .2:
            for b in c['scene']['bodies']:
                b['vel'] = [v + rng.uniform(-1, 1) * (1 if k == 0 else 20) for k, v in enumerate(b.get('vel', [0., 0., 0.]))]
    out += [{'t': 'drift', 'seed': rng.randrange(2 ** 31)} for _ in range(60 if tier == 'quick' else 1500)]
    return out


def engine(log, limit, more=()):
    from lcp_physics.physics.engines import PdipmEngine
    base = monitor_engine([], limit=limit)

    class E(base):
        def solve_dynamics(self, world, dt):
            state(world, log)
            self.dt = float(dt)
            return super().solve_dynamics(world, dt)

        def post_stabilization(self, world):
            d = {'p': np.stack([npv(b.p) for b in world.bodies]), 'v': npv(world.get_v()), 't': float(world.t),
                 'c': contacts_np(world), 'dt': self.dt}
            d['alt'] = None
            if len(log) in more:
                f = self.lcp_solver
                self.lcp_solver = lambda *a, **k: f(*a, **dict(k, max_iter=60))
                d['alt'] = npv(super().post_stabilization(world)).reshape(-1) / 2
                self.lcp_solver = f
            dp = super().post_stabilization(world)
            log.append(d)
            return dp
    return E


def state(world, log):
    """Completes the last record with the state after the correction."""
    if log and 'p1' not in log[-1]:
        log[-1].update(p1=np.stack([npv(b.p) for b in world.bodies]), v1=npv(world.get_v()), t1=float(world.t),
                       bv=np.concatenate([npv(b.v) for b in world.bodies]))


def project(ref, d, Je, N):
    """Smallest correction: min dp'M dp / 2, Je dp = - Je v, N dp >= - (1 - e) N v."""
    v = d['v']
    sq = np.sqrt(ref.Md)
    n = len(v)
    if len(N) == 0:
        if not len(Je):
            return np.zeros(n), np.zeros(0)
        B = Je / sq
        if np.linalg.matrix_rank(B / np.linalg.norm(B, axis=1)[:, None], tol=1e-7) < len(Je):
            return None
        return -np.linalg.lstsq(B, Je @ v, rcond=None)[0] / sq, np.zeros(0)
    e = np.array([(ref.e[c[4]] + ref.e[c[5]]) / 2 for c in d['c']])
    g = (1 - e) * (N @ v)
    rs = 1 / np.linalg.norm(N / sq, axis=1)
    try:
        a = lcporacle.solve(np.eye(n), np.zeros(n), -(N / sq) * rs[:, None], g * rs, Je / sq if len(Je) else None,
                            -(Je @ v) if len(Je) else None, np.zeros((len(N), len(N))))
    except np.linalg.LinAlgError:
        return None
    if a is None or a[4] > 1e-8:
        return None
    return a[0] / sq, a[1]


def run(case, r):
    return drift(case, r) if case['t'] == 'drift' else scene(case, r)


def scene(case, r):
    spec = case['scene']
    r.key = [spec['kind'], spec['bodies'][-1], case['fixed']]
    ref = Ref(spec)
    sq = np.sqrt(ref.Md)
    again = {}
    for i, k, d in steps(case):
        if k is None:
            r.fail('step %d: no correction was made' % i)
        elif not judge(r, ref, sq, d, i, k, again):
            return
    if again:
        # would the solver, with more iterations, have found it?
        for i, k, d in steps(case, set(again)):
            if k not in again:
                continue
            obs, dp, vs = again.pop(k)
            if d['alt'] is not None and np.linalg.norm(sq * (d['alt'] * 2 - dp)) < TOL * vs:
                r.count('out of iterations')
            else:
                r.fail('step %d: the correction differs from the smallest one that restores the constraints by %.3g '
                       '(relative to speed; the latter has size %.3g)' % (i, np.linalg.norm(sq * (obs - dp)) / vs, np.linalg.norm(sq * dp) / vs),
                       observed=obs.tolist(), reference=dp.tolist())
                return
            if not again:
                return


def steps(case, more=()):
    random.seed(12345)
    log = []
    w = make_world(case['scene'], engine=engine(log, 160, more), post_stab=True, strict_no_penetration=case['strict'])
    try:
        for i in range(case['steps']):
            l0 = len(log)
            w.step(fixed_dt=case['fixed'])
            state(w, log)
            if len(log) == l0:
                yield i, None, None
            for k in range(l0, len(log)):
                yield i, k, log[k]
    except Stop:
        pass


def judge(r, ref, sq, d, i, k, again):
    r.events += 1
    r.nontrivial = True
    if not (np.array_equal(d['v'], d['v1']) and np.array_equal(d['v'], d['bv'])):
        r.fail('step %d: the correction changed velocities by %.3g' % (i, max(np.abs(d['v'] - d['v1']).max(), np.abs(d['v'] - d['bv']).max())))
        return False
    if abs(d['t'] + d['dt'] - d['t1']) > 1e-12 * (1 + abs(d['t1'])):
        r.fail('step %d: time went from %.9g to %.9g in a step of length %.9g' % (i, d['t'], d['t1'], d['dt']))
        return False
    Je = ref.Je(d['p'])
    N, _ = ref.Jn_t(d['c'])
    r.count('corrections: %s' % ('joints and contacts' if len(Je) and len(N) else 'joints only' if len(Je) else
                                 'contacts only' if len(N) else 'nothing to correct'))
    a = project(ref, d, Je, N)
    if a is None:
        r.count('no unique reference')
        return True
    dp, lam = a
    r.count('pushing contacts', int((lam > 1e-9).sum()))
    obs = (d['p1'] - d['p']).reshape(-1) * 2 / d['dt']
    vs = np.linalg.norm(sq * d['v']) + (.3 if len(N) else 1e-6) * np.sqrt((sq * sq).mean())   # the solver has absolute tolerances
    pmax = np.abs(d['p']).max()
    round_ = 1e-15 * (1 + pmax) / d['dt'] * np.linalg.norm(sq) * 10
    err = max(0., np.linalg.norm(sq * (obs - dp)) - round_) / vs
    r.maxi('relative error of a correction', err)
    if err > TOL:
        tot = np.linalg.norm(sq * dp) / vs
        if len(N):
            if err < 1e-3:
                r.count('inexact steps')
            else:
                again[k] = obs, dp, vs
            return True
        r.fail('step %d: the correction differs from the smallest one that restores the constraints by %.3g '
               '(relative to speed; the latter has size %.3g)' % (i, err, tot),
               observed=obs.tolist(), reference=dp.tolist(), contacts=len(N), constraints=len(Je))
        return False
    return True


def drift(case, r):
    """Linkages without contacts: how far the two anchors of a joint move apart."""
    rng = random.Random(case['seed'])
    spec = rand_scene(rng, rng.choice(['chain', 'linkage', 'linkage']), projectile=False)
    spec['no_contact'] = [[i, j] for i in range(len(spec['bodies'])) for j in range(i)]
    if not any(j['k'] == 'joint' for j in spec['joints']):
        spec['joints'][:] = [{'k': 'joint', 'b1': 0, 'b2': None, 'pos': [init_pose(spec['bodies'][0])[1] + 11., init_pose(spec['bodies'][0])[2] - 7.]}]
    w = rng.uniform(.5, 3) * rng.choice([-1, 1])
    for b in spec['bodies']:
        b['forces'] = [{'k': 'gravity', 'g': 10.}] if rng.random() < .3 else []
        q = init_pose(b)
        b['vel'] = [w, -w * q[2], w * q[1]]
    ref = Ref(spec)
    T = .4
    D = {}
    for ps in (False, True):
        for n in (8, 16, 32):
            spec['world'] = {'dt': T / n}
            W = make_world(spec, post_stab=ps)
            for _ in range(n):
                W.step()
            D[ps, n] = anchors_apart(ref, Snap(W).p)
    r.events += 1
    r.nontrivial = True
    r.key = [case['seed']]
    if D[False, 32] < 1e-6 * T:
        r.count('no drift')
        return
    r.count('drift comparisons')
    r.maxi('drift with correction / without, 32 steps', D[True, 32] / D[False, 32])
    r.maxi('drift ratio of half step', D[True, 32] / (D[True, 16] + 1e-12))
    if not D[True, 32] < .15 * D[False, 32]:
        r.fail('after %g s joints are %.3g apart with correction and %.3g without' % (T, D[True, 32], D[False, 32]))
    if not D[True, 32] < .45 * D[True, 16] + 1e-9:
        r.fail('halving the step reduces the drift of corrected joints only from %.3g to %.3g' % (D[True, 16], D[True, 32]))


def anchors_apart(ref, p):
    out = 0.
    for j in ref.joints:
        if j['k'] == 'joint':
            a = p[j['b1']][1:] + rot(p[j['b1']][0] - j['th1']) @ j['r1']
            c = np.asarray(j['pos'], float) if j.get('b2') is None else \
                p[j['b2']][1:] + rot(p[j['b2']][0] - j['th2']) @ j['r2']
            out = max(out, np.linalg.norm(a - c))
    return out


def aggregate(specs, results, counters):
    return sim.budget_rule(specs, results, counters, TOL, .01)


if __name__ == '__main__':
    common.main(sys.modules[__name__])
