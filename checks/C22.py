"""C22: batches and repeated use of the LCP solver"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import random
import numpy as np
import lcporacle as O
import lcpcheck as L

ID = 'C22'
RULE = ('random mixed LCPs (six families) solved alone, in batches of 2-5, in other orders, together with other problems, repeatedly and '
        'interleaved with other calls of the same solver object, with strided and expanded arguments; answers and gradients compared, '
        'also after few iterations; distinct = family, sizes, batch; non-trivial when a comparison was judged')
ASSUME = ['in different batches answers are equal up to rounding, judged where perturbing the data by 1e-13 changes the answer of the lone '
          'problem by less than 1e-9', 'the limit on iterations without improvement does not take effect']
TOL = 1e-6
NAMES = 'QpGhAbF'


def gen(rng, tier):
    n = 1500 if tier == 'quick' else 40000
    out = []
    for _ in range(n):
        s = L.gen_spec(rng, 4)
        s['nb'] = rng.choice([2, 3, 3, 5])
        s['mi'] = rng.choice([1, 2, 3, 4, 5, 6, 8, 40])
        s['neat'] = rng.choice([None, None, None, 'zerorow', 'box', 'dup', 'ints'])
        s['rs'] = rng.randrange(2 ** 31)
        s['sub'] = ''.join(rng.sample(NAMES, rng.randint(1, 6))) if rng.random() < .5 else NAMES
        out.append(s)
    return out


def solve(f, T, w, sub, grad=True, check=None):
    """Answer and gradients of one call."""
    import torch
    T = [t.detach().requires_grad_(n in sub) if t.numel() else t for n, t in zip(NAMES, T)]
    old = [t.detach().clone() for t in T]
    x = f(*T)
    out = {'x': x.detach().clone(), 'grad': None, 'T': T, 'live': x}
    if grad:
        out['grad'] = back(out, w, sub)
    if check is not None:
        for n, t, o in zip(NAMES, T, old):
            if t.numel() and not torch.equal(t.detach(), o):
                check('solving changed the argument %s' % n)
    return out


def back(out, w, sub):
    import torch
    use = [(n, t) for n, t in zip(NAMES, out['T']) if n in sub and t.numel()]
    if not use:
        return {}
    gs = torch.autograd.grad((out['live'] * w).sum(), [t for _, t in use], allow_unused=True, retain_graph=True)
    return {n: (torch.zeros_like(t) if g is None else g.detach().clone()) for (n, t), g in zip(use, gs)}


def degenerate(sol):
    return np.maximum(sol[1], sol[2]).min() < 1e-3 or (np.minimum(sol[1], sol[2]) > 1e-7).any()


def pick(T, idx):
    return [t[idx].clone() if t.numel() else t for t in T]


def differ(a, b, bitwise=False):
    """Relative difference of two results (0 when the same, nans included)."""
    import torch
    if a.shape != b.shape:
        return float('inf')
    na, nb = torch.isfinite(a), torch.isfinite(b)
    if bitwise:
        return 0. if torch.equal(a[na], b[nb]) and torch.equal(na, nb) else float('inf')
    if not na.all() or not nb.all():
        return float('nan')
    return float((a - b).abs().max() / (1e-3 + a.abs().max())) if a.numel() else 0.


def run(spec, r):
    import torch
    from lcp_physics.lcp.lcp import LCPFunction
    insts, rs = L.draw(spec['seed'], spec['kind'], spec['nz'], spec['m'], spec['neq'], spec['nb'], spec.get('neat'))
    if insts is None:
        raise common.Skip('no solvable instance')
    rng = random.Random(spec['rs'])
    nb = len(insts)
    T = O.tensors([i for i, _ in insts])
    nz = T[1].size(1)
    W = torch.as_tensor(rs.randn(nb, nz))
    sub = spec['sub']
    new = lambda: LCPFunction(max_iter=spec['mi'], not_improved_lim=1000)
    r.key = [spec['kind'], nz, len(insts[0][1][1]), spec['neq'], nb, spec['mi']]
    f = new()
    try:
        full = solve(new(), T, W, sub, check=r.fail)
    except RuntimeError:
        if spec['mi'] >= 8:
            raise common.Skip('no derivative')
        raise

    # ---- the same call again: bit for bit
    def again(o, what, idx=None):
        r.events += 1
        r.count('repeated calls')
        ref = full
        if differ(ref['x'], o['x'], True):
            r.fail('%s gives another answer: %.3g' % (what, differ(ref['x'], o['x'])), first=ref['x'], second=o['x'])
        for n in (o['grad'] or {}):
            if differ(ref['grad'][n], o['grad'][n], True):
                r.fail('%s gives another gradient for %s: %.3g' % (what, n, differ(ref['grad'][n], o['grad'][n])))
                break
    a = solve(f, pick(T, slice(None)), W, sub, grad=False)
    # other problems in between, of another shape
    s2 = L.gen_spec(rng, 4)
    other, rs2 = L.draw(s2['seed'], s2['kind'], s2['nz'], s2['m'], s2['neq'], rng.choice([1, nb, nb + 1]))
    if other is None:
        other = insts[:1]
    T2 = O.tensors([i for i, _ in other])
    try:
        o2 = solve(f, T2, torch.ones_like(T2[1]), NAMES, grad=rng.random() < .5)
    except RuntimeError:
        r.count('other problem without derivative')
    # and a batch of another size of the same shape
    k = rng.randrange(1, nb)
    solve(f, pick(T, slice(0, k)), W[:k], sub, grad=False)
    a['grad'] = back(a, W, sub)
    again(a, 'the solver object used in between for other problems')
    g1 = a['grad']
    a['grad'] = back(a, W, sub)
    again(a, 'differentiating twice')
    again(solve(f, pick(T, slice(None)), W, sub), 'solving once more with the same object')
    if r.violations:
        return
    r.nontrivial = True

    # ---- strided arguments
    def strided(t):
        if t.dim() == 3 and rng.random() < .5:
            return t.transpose(1, 2).contiguous().transpose(1, 2)
        z = torch.stack([t, t + 1], -1)
        return z[..., 0]
    alt = [strided(t) if t.numel() else t for t in T]
    variants = [('arguments with strides', alt, list(range(nb)))]

    # ---- other batches
    perm = list(range(nb))
    rng.shuffle(perm)
    variants.append(('another order', pick(T, perm), perm))
    one = rng.randrange(nb)
    variants.append(('alone', pick(T, [one]), [one]))
    two = rng.sample(range(nb), 2)
    variants.append(('a batch of two', pick(T, two), two))
    # next to harder / converged problems
    rep = [one] * 2 + [rng.randrange(nb)]
    variants.append(('repeated', pick(T, rep), rep))
    ex = [t[one:one + 1].expand(*([3] + [-1] * (t.dim() - 1))) if t.numel() else t for t in T]
    variants.append(('expanded', ex, [one] * 3))

    # how much rounding matters
    pert = [t * (1 + 1e-13 * torch.as_tensor(rs.randn(*t.shape))) if t.numel() else t for t in T]
    try:
        pt = solve(new(), pert, W, sub)
    except RuntimeError:
        pt = None
    stable = {}
    for i in range(nb):
        for n in ['x'] + list(full['grad']):
            g = lambda o: o['x'] if n == 'x' else o['grad'][n]
            stable[i, n] = pt is not None and differ(g(full)[i], g(pt)[i]) < 1e-9
    for what, X, idx in variants:
        w = W[idx]
        try:
            o = solve(new(), X, w, sub)
        except RuntimeError as e:
            if spec['mi'] < 8 and all(v for v in stable.values()):
                raise
            r.count('skipped: no derivative')
            continue
        for k, i in enumerate(idx):
            for n in ['x'] + list(full['grad']):
                if n != 'x' and spec['mi'] >= 6 and (spec['kind'] == 'fric' or degenerate(insts[i][1])):
                    r.count('skipped: multipliers not unique')
                    continue
                if not stable[i, n]:
                    r.count('skipped: rounding matters')
                    continue
                u, v = (full['x'][i], o['x'][k]) if n == 'x' else (full['grad'][n][i], o['grad'][n][k])
                e = differ(u, v)
                if not torch.isfinite(u).all():
                    continue
                r.events += 1
                r.count('compared: ' + what)
                r.count('compared gradients' if n != 'x' else 'compared answers')
                if spec['mi'] < 8:
                    r.count('after few iterations')
                if not e <= TOL:
                    r.fail('%s: %s of a problem is off by %.3g' % (what, 'answer' if n == 'x' else 'gradient for ' + n, e), kind=spec['kind'], mi=spec['mi'], first=u, second=v)
                    return
                r.maxi('difference', e)


NEED = {'compared answers': 500, 'compared gradients': 1000, 'after few iterations': 500, 'repeated calls': 500}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
