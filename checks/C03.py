"""C03: bodies in contact obey Newton's restitution law and contacts only push."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
from phys import impulse_residual

ID = 'C03'
RULE = ('random scenes (inclined floors, shots, billiard boxes, hinge chains, piles, mixed joints; length units 0.1-3, '
        'several time steps) and the demo scenes, every step with a contact judged; distinct = scene, non-trivial when a '
        'step had an active contact')
ASSUME = ['contact geometry at the start of the step as reported by the world (its correctness is another property)',
          'separation speeds are judged to 1e-7 and impulses to 1e-3 of the scale of the step; the rate of errors above 1e-5 is bounded (0.5%)',
          'steps that turn lawful when the solver is given more iterations are counted and bounded (0.1%), not alarms; so are steps with friction coefficients above one the solver does not converge on']
LAW = False
TOL = 1e-3
TOLG = 1e-7
FINE = 1e-5
RATE = .005


def gen(rng, tier):
    return sim.extremes(rng, sim.workload(rng, tier, 220 if tier == 'quick' else 6000))


def judge(st, ref, sc):
    N, T = ref.Jn_t(st.s0.contacts)
    e = np.array([(ref.e[c[4]] + ref.e[c[5]]) / 2 for c in st.s0.contacts])
    gap = N @ st.s1.v + e * (N @ st.s0.v)
    res, info = impulse_residual(ref, st.s0, st.s1.v, st.dt, LAW)
    return -gap.min() / sc, res, info, (N @ st.s0.v).min() < -1e-3 * sc


def run(case, r):
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]

    def monitor(st, ref, w):
        if not st.s0.contacts:
            return
        r.events += 1
        sc = np.abs(ref.Jn_t(st.s0.contacts)[0]).max() * sim.vscale(st, ref)
        bad, res, info, impact = judge(st, ref, sc)
        r.count('contacts', len(st.s0.contacts))
        r.count('active contacts', info['active'])
        r.count('active contacts ' + case['scene']['kind'].split('*')[0], info['active'])
        if impact:
            r.count('steps with an impact')
        if info['active']:
            r.nontrivial = True
        if bad > TOLG or res > TOL:
            st2 = sim.with_more_iterations(case, st)
            b2, r2 = judge(st2, ref, sc)[:2] if st2 is not None else (1, 1)
            if b2 < TOLG and r2 < TOL or sim.rough(st, ref):
                r.count('out of iterations')
                return
            if bad > TOLG:
                r.fail('step %d: contact separates slower than restitution demands (by %.3g of the speed scale)' % (st.i, bad),
                       contacts=st.s0.contacts, v0=st.s0.v, v1=st.s1.v, dt=st.dt)
            else:
                r.fail('step %d: velocity change is not made of pushes at the touching contacts and joint reactions '
                       '(relative residual %.3g)' % (st.i, res), contacts=st.s0.contacts, v0=st.s0.v, v1=st.s1.v, dt=st.dt)
            return
        r.maxi('approach left over', bad)
        r.maxi('impulse outside the law', res)
        if max(bad, res) > FINE:
            r.count('inexact steps')
    sim.simulate(case, monitor)


def aggregate(specs, results, counters):
    return sim.budget_rule(specs, results, counters, FINE, RATE)


NEED = {'steps with an impact': 50, 'active contacts': 200}

if __name__ == '__main__':
    common.main(sys.modules[__name__])
