"""C02: gradients of the LCP solution"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import sim
import lcporacle as O
import lcpcheck as L

ID = 'C02'
RULE = ('random mixed LCPs (six families, batches of 1-4, subsets of the inputs requiring gradients, linear and quadratic losses) '
        'with strictly complementary solutions; the back-propagated gradient of every input compared with the autograd '
        'derivative of the active-set KKT system; distinct = family, sizes, batch and activity')
ASSUME = ['strict complementarity (margin 1e-3) and a KKT matrix of condition below 1e7',
          'answers on which the solver itself misses the solution are judged by C01, not here']
TOL = 1e-4
NAMES = 'QpGhAbF'


def gen(rng, tier):
    n = 3000 if tier == 'quick' else 60000
    out = []
    for _ in range(n):
        s = L.gen_spec(rng, 4)
        s['mi'], s['lim'] = 60, 20
        if s['kind'] == 'fric':
            s['m'] = rng.choice([4, 4, 8])
        s['sub'] = ''.join(rng.sample(NAMES, rng.randint(1, 6))) if rng.random() < .3 else NAMES
        s['quad'] = rng.random() < .5
        out.append(s)
    return out


def kkt_x(t, act):
    """x of one problem as a differentiable function of its data, the active set being fixed."""
    import torch
    Q, p, G, h, A, b, F = t
    n, na = len(p), int(act.sum())
    neq = 0 if A is None else len(A)
    a = torch.as_tensor(np.where(act)[0])
    K = torch.zeros(n + na + neq, n + na + neq, dtype=torch.double)
    Ga = G[a]
    K[:n, :n] = Q
    K[:n, n:n + na] = Ga.t()
    K[n:n + na, :n] = -Ga
    K[n:n + na, n:n + na] = F[a][:, a]
    rhs = [-p, -h[a]]
    if neq:
        K[:n, n + na:] = A.t()
        K[n + na:, :n] = A
        rhs.append(b)
    return torch.linalg.solve(K, torch.cat(rhs))[:n], K


def degenerate(sol):
    return np.maximum(sol[1], sol[2]).min() < 1e-3 or (np.minimum(sol[1], sol[2]) > 1e-7).any()


def run(spec, r):
    import torch
    from lcp_physics.lcp.lcp import LCPFunction
    insts, rs = L.draw(spec['seed'], spec['kind'], spec['nz'], spec['m'], spec['neq'], spec['nb'])
    if insts is None:
        raise common.Skip('no solvable instance')
    nb = len(insts)
    T = O.tensors([i for i, _ in insts])
    m = len(insts[0][1][1])
    nz = T[1].size(1)
    wl = torch.as_tensor(rs.randn(nb, nz))
    wq = torch.as_tensor(rs.randn(nb, nz)) * (1. if spec['quad'] else 0.)
    loss = lambda k, x: (wl[k] * x).sum() + (wq[k] * x * x).sum()
    sub = [n for n in NAMES if n in spec['sub'] and T[NAMES.index(n)].numel()]
    if not sub:
        raise common.Skip('no input')
    lib = [t.clone().requires_grad_(n in sub) for n, t in zip(NAMES, T)]
    x = LCPFunction(max_iter=spec['mi'], not_improved_lim=spec['lim'])(*lib)
    try:
        gs = torch.autograd.grad(sum(loss(k, x[k]) for k in range(nb)), [lib[NAMES.index(n)] for n in sub], allow_unused=True)
    except RuntimeError:
        if any(degenerate(sol) for _, sol in insts):
            raise common.Skip('a problem without derivatives')
        raise
    g = dict(zip(sub, gs))
    r.key = [spec['kind'], nz, m, spec['neq'], nb, [int((s[1] > 1e-9).sum()) for _, s in insts]]
    for k, (inst, sol) in enumerate(insts):
        sx, lam, s = sol[0], sol[1], sol[2]
        act = lam > s
        if degenerate(sol):
            r.count('skipped: degenerate')
            continue
        if L.answer_error(inst, sol, x[k].detach().numpy()) > 1e-7 or \
                np.abs(x[k].detach().numpy() - sx).max() > 1e-6 * (1 + np.abs(sx).max()):
            r.count('skipped: solver missed the solution')
            continue
        t = [None if q is None else torch.tensor(np.asarray(q), dtype=torch.double).requires_grad_(True)
             for q in (inst[n] for n in NAMES)]
        xr, K = kkt_x(t, act)
        if not np.isfinite(K.detach().numpy()).all() or np.linalg.cond(K.detach().numpy()) > 1e7:
            r.count('skipped: ill-conditioned')
            continue
        names = [n for n in sub if inst[n] is not None]
        gr = torch.autograd.grad(loss(k, xr), [t[NAMES.index(n)] for n in names], allow_unused=True)
        ref = {n: (torch.zeros_like(t[NAMES.index(n)]) if q is None else q) for n, q in zip(names, gr)}
        if 'Q' in ref:
            ref['Q'] = (ref['Q'] + ref['Q'].t()) / 2
        r.events += 1
        r.count('problems ' + spec['kind'])
        r.count('problems with equalities', int(spec['neq'] > 0))
        r.count('problems in batches', int(nb > 1))
        if act.any():
            r.nontrivial = True
            r.count('with active constraints')
        for n in names:
            if g[n] is None:
                r.fail('no gradient for %s' % n, kind=spec['kind'])
                continue
            a = g[n][k]
            if n == 'Q':
                a = (a + a.t()) / 2
            # each problem depends on its own data only; scale: the size of this gradient
            e = float((a - ref[n]).abs().max() / (3e-2 + ref[n].abs().max()))
            r.count('gradients of ' + n)
            if not e <= TOL:
                r.fail('gradient for %s is off by %.3g (relative)' % (n, e), kind=spec['kind'], index=k, got=a, expected=ref[n])
            else:
                r.maxi('relative error', e)


NEED = {'gradients of ' + n: 50 for n in NAMES}
NEED.update({'with active constraints': 300, 'problems fric': 10})


if __name__ == '__main__':
    common.main(sys.modules[__name__])
