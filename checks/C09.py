"""C09: unconstrained motion follows the applied forces."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import copy
import random
from scenes import rand_force, make_force, make_world
from phys import Ref, npv

ID = 'C09'
RULE = ('random scenes of all kinds with satellites under constant, pulsed, oscillating and built-in forces; every body that has '
        'neither a joint nor a reported contact is compared with m dv = f(t) dt, and every body with dp = v dt; distinct = '
        'scene, non-trivial when such a body carried a force')
ASSUME = ['forces are functions of time; their values at the start of the step count']
TOL = 1e-9


def gen(rng, tier):
    n = 180 if tier == 'quick' else 3000
    out = sim.workload(rng, tier, n, kinds=['free', 'free', 'free'] + sim.KINDS + ['linkage'])
    for c in out:
        for b in c['scene']['bodies']:
            if b.get('forces') and rng.random() < .15:      # the same force once more
                b['forces'].append(dict(rng.choice(b['forces']), twice=rng.random() < .5))
    for c in out:
        if rng.random() < .25 and c['scene']['kind'] == 'free':      # from feathers to ships
            for b in c['scene']['bodies']:
                b['mass'] = 10 ** rng.uniform(-3, 6)
    for c in sim.workload(rng, tier, n // 9, kinds=['free'], demos=False):
        out.append({'scene': c['scene'], 'mode': 'added', 'seed': rng.randrange(2 ** 31)})
    return out


def added(case, r):
    """Forces attached between steps, and a clock that is set back."""
    rng = random.Random(case['seed'])
    spec = copy.deepcopy(case['scene'])
    r.key = ['added', spec['bodies'][-1]]
    w = make_world(spec)
    for k in range(8):
        if k and rng.random() < .6:
            i = rng.randrange(len(spec['bodies']))
            f = rand_force(rng)
            if rng.random() < .5:
                f = dict(f, k='const', vec=[rng.uniform(-9, 9) for _ in range(3)], mult=rng.uniform(-200, 200))
            spec['bodies'][i].setdefault('forces', []).append(f)
            w.bodies[i].add_force(make_force(f))
            r.count('forces added later')
        if k and rng.random() < .4:
            w.t = rng.choice([0, 0., t])
            r.count('clock set back')
        ref = Ref(spec)
        t, v0 = w.t, npv(w.v)
        n = len(w.contacts)
        w.step()
        if n:
            continue
        dv = (w.t - t) * ref.force(t) / ref.Md
        v1 = np.concatenate([npv(b.v) for b in w.bodies])
        e = np.abs(v1 - v0 - dv) / (1e-9 + np.abs(v1) + np.abs(v0) + np.abs(dv)).max()
        r.events += 1
        r.nontrivial = True
        r.maxi('velocity error', e.max())
        if e.max() > TOL:
            r.fail('step %d from t=%g: velocities change by %s, the forces attached by then give %s' % (k, t, v1 - v0, dv))
            return


def run(case, r):
    if case.get('mode') == 'added':
        return added(case, r)
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]
    last = [None]

    def monitor(st, ref, w):
        f = ref.force(st.s0.t)
        held = {i for c in st.s0.contacts for i in c[4:6]}
        held |= {j[k] for j in ref.joints for k in ('b1', 'b2') if j.get(k) is not None}
        dp = st.s1.p - st.s0.p
        for i in range(ref.n):
            sl = slice(3 * i, 3 * i + 3)
            v1 = st.s1.v[sl]
            e = np.abs(dp[i] - v1 * st.dt).max() / (1e-9 + np.abs(st.s1.p[i]).max() + np.abs(v1).max())
            r.events += 1
            r.maxi('position error', e)
            if e > TOL:
                r.fail('step %d: body %d moves by %s, velocity times elapsed time is %s' % (st.i, i, dp[i], v1 * st.dt))
            if i in held:
                continue
            dv = st.dt * f[sl] / ref.Md[sl]
            e = np.abs(v1 - st.s0.v[sl] - dv) / (1e-9 + np.abs(v1) + np.abs(st.s0.v[sl]) + np.abs(dv)).max()
            r.count('free body steps')
            if len(st.solves) > 1:
                r.count('free body steps shortened by others')
            if np.abs(f[sl]).max() > 0:
                r.nontrivial = True
                r.count('free body steps under force')
            r.maxi('velocity error', e.max())
            if e.max() > TOL:
                r.fail('step %d: free body %d changes velocity by %s, its forces give %s' %
                       (st.i, i, v1 - st.s0.v[sl], dv), dt=st.dt, t=st.s0.t)
    sim.simulate(case, monitor)


NEED = {'free body steps under force': 500, 'free body steps shortened by others': 30, 'forces added later': 30, 'clock set back': 20}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
