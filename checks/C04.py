"""C04: Coulomb friction."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
from phys import impulse_residual

ID = 'C04'
RULE = ('as C03, scenes chosen so that contacts slide as well as stick (coefficients 0-4); every step with an active contact '
        'judged with the full law; distinct = scene, non-trivial when a contact was sliding or sticking under friction')
ASSUME = ['contact geometry at the start of the step as reported by the world (its correctness is another property)',
          'single steps are judged to 1e-3 of the scale of the step and the rate of errors above 1e-5 is bounded (0.5%)',
          'steps that turn lawful when the solver is given more iterations are counted and bounded (0.1%), not alarms; so are steps with friction coefficients above one the solver does not converge on']
TOL = 1e-3
FINE = 1e-5
RATE = .005


def gen(rng, tier):
    n = 400 if tier == 'quick' else 6000
    discs = sim.workload(rng, tier, n // 5, kinds=['collide'], demos=False, scales=False, shapes='c')
    for c in discs:      # any coefficient: the law of a single disc contact is always solvable
        for b in c['scene']['bodies']:
            b['mu'] = rng.uniform(0, 4)
            b['vel'][0] = rng.uniform(-1, 1) * rng.choice([1, 10, 40])
    return (discs + sim.extremes(rng, sim.workload(rng, tier, n // 2) +
            sim.workload(rng, tier, n // 4, kinds=['box', 'crowd', 'floor', 'mixed'], demos=False)) +
            sim.workload(rng, tier, n // 4, kinds=['floor', 'box', 'stack'], demos=False, mu=rng.choice([0., .1, .3])))


def judge(st, ref):
    # the slip classification has the accuracy of the velocity solver
    best = None
    for tol in (1e-6, 1e-8, 1e-4):
        res, info = impulse_residual(ref, st.s0, st.s1.v, st.dt, True, tol)
        if best is None or res < best[0]:
            best = (res, info)
        if res < FINE:
            break
    return best


def run(case, r):
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]

    def monitor(st, ref, w):
        if not st.s0.contacts:
            return
        r.events += 1
        res, info = judge(st, ref)
        for k in ('sliding', 'sticking'):
            r.count(k, info[k])
        if info['active']:
            r.nontrivial = True
        if res > TOL:
            st2 = sim.with_more_iterations(case, st)
            if st2 is not None and judge(st2, ref)[0] < TOL or sim.rough(st, ref):
                r.count('out of iterations')
                return
            r.fail('step %d: velocity change breaks the friction law (relative residual %.3g)' % (st.i, res),
                   contacts=st.s0.contacts, v0=st.s0.v, v1=st.s1.v, dt=st.dt, info=info)
            return
        r.maxi('impulse outside the law', res)
        if res > FINE:
            r.count('inexact steps')
    sim.simulate(case, monitor)


def aggregate(specs, results, counters):
    return sim.budget_rule(specs, results, counters, FINE, RATE)


NEED = {'sliding': 100, 'sticking': 100}

if __name__ == '__main__':
    common.main(sys.modules[__name__])
