"""C13: contacts and joints never create kinetic energy."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim

ID = 'C13'
RULE = ('random scenes in three regimes where the contact law is dissipative: frictionless with one restitution coefficient '
        'and no forces (restitution 0, 1 and between), no restitution with friction and forces, and joints only; kinetic '
        'energy after every step against that before plus the work of the forces; single elastic regime: energy is kept; '
        'distinct = scene and regime, non-trivial when a contact or joint changed the energy or was elastic')
ASSUME = ['impacts between linkages are judged only when the velocities satisfy the joints to rounding (they do so to second order otherwise)']
TOL = 1e-6
LOSS = 1e-7


def gen(rng, tier):
    n = 220 if tier == 'quick' else 5000
    out = []
    for i in range(n):
        reg = ['elastic', 'uniform', 'plastic', 'joints'][i % 4]
        if reg == 'elastic':
            c = sim.workload(rng, tier, 1, kinds=[rng.choice(['collide', 'box', 'linkage', 'central'])], demos=False, e=1., mu=0., noforce=True)[0]
        elif reg == 'uniform':
            c = sim.workload(rng, tier, 1, kinds=[rng.choice(['collide', 'box', 'linkage', 'central'])], demos=False,
                             e=rng.uniform(0, 1), mu=0., noforce=True)[0]
        elif reg == 'plastic':
            c = sim.workload(rng, tier, 1, kinds=[rng.choice(sim.KINDS + ['linkage'])], demos=False, e=0.)[0]
        else:
            c = sim.workload(rng, tier, 1, kinds=[rng.choice(['chain', 'linkage'])], demos=False, projectile=False)[0]
        if reg != 'plastic':
            if reg != 'joints':
                for b in c['scene']['bodies']:
                    b['forces'] = []
        c['regime'] = reg
        out.append(c)
    return out


def run(case, r):
    reg = case['regime']
    r.key = [case['scene']['kind'], reg, case['scene']['bodies'][-1]]

    def judge(st, ref):
        f = ref.force(st.s0.t)
        u = st.s0.v + st.dt * f / ref.Md      # what the forces alone would give
        E0, E1 = ref.energy(u), ref.energy(st.s1.v)
        return E0, E1, (E1 - E0) / (1e-12 + ref.energy(st.s0.v) + E0 + E1)

    def monitor(st, ref, w):
        if reg == 'joints' and st.s0.contacts:
            return
        if reg in ('elastic', 'uniform') and ref.joints and st.s0.contacts and \
                np.abs(ref.Je(st.s0.p) @ st.s0.v).max() > 1e-9 * sim.vscale(st):
            # the joints have moved on (second order): the contact law and the
            # joints together may then cost or give a second-order energy
            r.count('steps not judged')
            return
        E0, E1, g = judge(st, ref)
        r.events += 1
        if st.s0.contacts:
            r.count('contact steps ' + reg)
            r.nontrivial = True
        elif abs(E1 - E0) > 1e-9 * E0:
            r.nontrivial = True
            r.count('steps with joint work')
        lo = 0 if reg == 'elastic' and np.abs(ref.force(st.s0.t)).max() == 0 and (st.s0.contacts or not ref.joints) else None
        r.maxi('relative energy gain', g)
        if g > TOL or (lo is not None and g < -LOSS):
            st2 = sim.with_more_iterations(case, st) if st.s0.contacts else None
            if st2 is not None:
                g2 = judge(st2, ref)[2]
                if g2 <= TOL and not (lo is not None and g2 < -LOSS):
                    r.count('out of iterations')
                    return
            r.fail('step %d (%s): kinetic energy %.9g becomes %.9g' % (st.i, reg, E0, E1), contacts=st.s0.contacts,
                   v0=st.s0.v, v1=st.s1.v)
        elif lo is not None and st.s0.contacts:
            r.maxi('relative energy loss in elastic contact', -g)
    sim.simulate(case, monitor)


def aggregate(specs, results, counters):
    return sim.budget_rule(specs, results, counters, TOL, 0)


NEED = {'contact steps elastic': 60, 'contact steps uniform': 60, 'contact steps plastic': 100, 'steps with joint work': 30}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
