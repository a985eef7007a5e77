"""C10: joints and axis constraints hold exactly at velocity level and do no more than that."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim

from phys import impulse_residual

ID = 'C10'
RULE = ('random scenes with revolute, fixed, axis, rotation and total constraints (chains, linkages, mixed), with and without '
        'post-stabilization; after every step the relative velocity along every constrained direction must vanish, and on '
        'contact-free steps the velocity must be the least-action (Gauss) one; distinct = scene')
ASSUME = []
TOL = 1e-7


def gen(rng, tier):
    n = 200 if tier == 'quick' else 4000
    out = sim.workload(rng, tier, n, kinds=['chain', 'mixed', 'linkage', 'stack', 'box'])
    out += sim.spinners(rng, n // 12)
    for c in out:
        if rng.random() < .3:
            c['post_stab'] = True
        # initial velocities need not satisfy the constraints
        if rng.random() < .3:
            for b in c['scene']['bodies']:
                b['vel'] = [v + rng.uniform(-1, 1) * (1 if k == 0 else 20) for k, v in enumerate(b.get('vel', [0., 0., 0.]))]
    return out


def run(case, r):
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]
    kw = {'post_stab': True} if case.get('post_stab') else {}

    def monitor(st, ref, w):
        if not ref.joints:
            return
        if kw:
            # the anchors are tracked from body 1's pose, post-stabilized in the same way
            pass
        Je = ref.Je(st.s0.p)
        r.events += 1
        r.count('constrained directions', len(Je))
        r.count('steps with contacts' if st.s0.contacts else 'steps without contacts')
        r.nontrivial = True
        e = np.abs(Je @ st.s1.v).max() / (sim.vscale(st, ref) * max(1, np.abs(Je).max()))
        r.maxi('constraint velocity', e)
        if e > TOL:
            st2 = sim.with_more_iterations(case, st, **kw) if st.s0.contacts else None
            if st2 is not None and np.abs(Je @ st2.s1.v).max() < TOL * sim.vscale(st, ref) * max(1, np.abs(Je).max()):
                r.count('out of iterations')
                return
            k = int(np.abs(Je @ st.s1.v).argmax())
            r.fail('step %d: constrained direction %d has relative velocity %.3g' % (st.i, k, (Je @ st.s1.v)[k]),
                   joints=case['scene']['joints'])
        if not st.s0.contacts:
            res, _ = impulse_residual(ref, st.s0, st.s1.v, st.dt)
            r.maxi('action residual', res)
            if res > TOL:
                r.fail('step %d: velocity change of a contact-free step is not made of forces and joint reactions '
                       '(relative residual %.3g)' % (st.i, res))
    sim.simulate(case, monitor, **kw)


def aggregate(specs, results, counters):
    return sim.budget_rule(specs, results, counters, TOL, 0)


NEED = {'steps with contacts': 200, 'steps without contacts': 200}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
