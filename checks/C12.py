"""C12: momentum conservation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim

ID = 'C12'
RULE = ('random scenes; every group of bodies linked by contacts and joints and not tied to the world is checked after every '
        'step: linear momentum and angular momentum change by exactly the impulse of the applied forces; distinct = scene, '
        'non-trivial when a group of several bodies exchanged momentum')
ASSUME = []
TOL = 1e-7


def gen(rng, tier):
    n = 220 if tier == 'quick' else 5000
    out = sim.workload(rng, tier, n, kinds=['collide', 'linkage', 'linkage', 'free', 'box', 'mixed', 'stack', 'crowd', 'central'])
    for c in out:
        c['post_stab'] = rng.random() < .2
        if rng.random() < .3:
            # masses of very different size
            for b in c['scene']['bodies']:
                b['mass'] = b.get('mass', 1.) * 10 ** rng.uniform(-2, 2)
    return out


def groups(n, links, anchored):
    g = list(range(n))

    def find(i):
        while g[i] != i:
            i = g[i]
        return i
    for i, j in links:
        g[find(i)] = find(j)
    bad = {find(i) for i in anchored}
    out = {}
    for i in range(n):
        if find(i) not in bad:
            out.setdefault(find(i), []).append(i)
    return list(out.values())


def momentum(ref, p, v, ids):
    P, Lz = np.zeros(2), 0.
    for i in ids:
        w, x = v[3 * i], p[i][1:]
        m, u = ref.m[i], v[3 * i + 1:3 * i + 3]
        P += m * u
        Lz += ref.I[i] * w + m * (x[0] * u[1] - x[1] * u[0])
    return P, Lz


def run(case, r):
    r.key = [case['scene']['kind'], case['scene']['bodies'][-1]]

    def monitor(st, ref, w):
        links = [(c[4], c[5]) for c in st.s0.contacts]
        tied = []
        for j in ref.joints:
            if j.get('b2') is None:
                tied.append(j['b1'])
            else:
                links.append((j['b1'], j['b2']))
        f = ref.force(st.s0.t)
        p, v0, v1 = st.s0.p, st.s0.v, st.s1.v
        for ids in groups(ref.n, links, tied):
            P0, L0 = momentum(ref, p, v0, ids)
            P1, L1 = momentum(ref, p, v1, ids)
            F = sum(f[3 * i + 1:3 * i + 3] for i in ids)
            tau = sum(f[3 * i] + p[i][1] * f[3 * i + 2] - p[i][2] * f[3 * i + 1] for i in ids)
            sp = 1e-9 + sum(ref.m[i] * (np.abs(v0[3 * i + 1:3 * i + 3]).sum() + np.abs(v1[3 * i + 1:3 * i + 3]).sum()) for i in ids)
            arm = max(np.abs(p[i][1:]).max() for i in ids) + max(ref.shapes[i].extent for i in ids)
            sl = sp * arm + 1e-9 + sum(ref.I[i] * (abs(v0[3 * i]) + abs(v1[3 * i])) for i in ids)
            eP = np.abs(P1 - P0 - st.dt * F).max() / sp
            eL = abs(L1 - L0 - st.dt * tau) / sl
            r.events += 1
            if len(ids) > 1:
                r.count('groups of several bodies')
                if any(np.abs(v1[3 * i:3 * i + 3] - v0[3 * i:3 * i + 3]).max() > 1e-3 for i in ids):
                    r.count('exchanges')
                    r.nontrivial = True
            r.maxi('linear momentum error', eP)
            r.maxi('angular momentum error', eL)
            if eP > TOL or eL > TOL:
                r.fail('step %d: bodies %s gain momentum %s (expected %s), angular %.6g (expected %.6g)' % (
                    st.i, ids, P1 - P0, st.dt * F, L1 - L0, st.dt * tau), contacts=st.s0.contacts)
    sim.simulate(case, monitor, post_stab=case['post_stab'])


NEED = {'exchanges': 200}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
