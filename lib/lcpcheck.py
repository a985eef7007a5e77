"""Judging one answer of the LCP solver."""
import numpy as np
from scipy.optimize import nnls
import lcporacle as O


def fric_error(inst, x, tol=1e-7):
    """For frictional contact problems, whose solution need not be unique:
    distance of x from satisfying the contact law (0 when it does)."""
    Q, p, G, h, A, b = (None if inst[k] is None else np.asarray(inst[k]) for k in ('Q', 'p', 'G', 'h', 'A', 'b'))
    F = np.asarray(inst['F'])
    m = len(h)
    nc = m // 4
    sx = 1 + np.abs(x).max()
    err = 0.
    if A is not None:
        err = max(err, np.abs(A @ x - b).max() / sx)
    g = -(Q @ x + p)
    sc = np.abs(p).max() + np.abs(Q @ x).max() + 1e-9
    gens = []
    for i in range(nc):
        jc, jt = G[i], G[nc + 2 * i]
        sn = h[i] - jc @ x
        err = max(err, -sn / sx)
        if sn > tol * 100 * sx:
            continue
        mu = F[3 * nc + i, i]
        vt = jt @ x
        if abs(vt) > tol * 100 * sx:
            gens.append(jc + mu * np.sign(vt) * jt)
        else:
            gens += [jc + mu * jt, jc - mu * jt]
    if A is not None:
        U, S, _ = np.linalg.svd(A.T, full_matrices=False)
        U = U[:, S > 1e-10 * S.max()]
        g = g - U @ (U.T @ g)
        gens = [q - U @ (U.T @ q) for q in gens]
    if gens:
        Bm = np.stack(gens, 1)
        n = np.linalg.norm(Bm, axis=0)
        n[n < 1e-12] = 1
        _, res = nnls(Bm / n, g, maxiter=1000)
    else:
        res = np.linalg.norm(g)
    return max(err, res / sc)


def answer_error(inst, sol, x):
    """Relative error of the answer x (nan counts as infinite)."""
    x = np.asarray(x, float)
    if not np.isfinite(x).all():
        return float('inf')
    e = np.abs(x - sol[0]).max() / (1 + np.abs(sol[0]).max())
    if e > 1e-7 and inst.get('kind') == 'fric':
        e = min(e, fric_error(inst, x))
    return float(e)


def run_solver(insts, lim, mi):
    from lcp_physics.lcp.lcp import LCPFunction
    return LCPFunction(max_iter=mi, not_improved_lim=lim)(*O.tensors(insts))


def relatives(inst, rng):
    """Same matrices and bounds, another linear term: separates a stall of the
    iteration at one point from wrong algebra."""
    q = dict(inst)
    p = np.asarray(inst['p'])
    q['p'] = rng.randn(len(p)) * np.sqrt((p * p).mean() + 1e-12) * rng.choice([.5, 1, 2])
    return q


def make_neat(i, kind, how, rng):
    """Special structure that random data never has."""
    G, h, F, p = i['G'], i['h'], i['F'], i['p']
    m, nz = G.shape
    if kind == 'fric':
        nc = m // 4
        k = rng.randint(nc)
        if how in ('zerorow', 'dup'):       # no friction at a contact
            F[3 * nc + k, k] = 0
        elif how == 'box':                  # contacts along the axes
            G[:nc] = np.eye(nz)[rng.randint(nz, size=nc)] * rng.choice([-1, 1], (nc, 1))
        else:
            G[:] = np.round(G)
            i['p'] = np.round(p)
            h[:nc] = np.round(h[:nc])
        return
    k = rng.randint(m)
    x0 = rng.randn(nz)
    if i['A'] is not None:
        x0 = np.linalg.lstsq(i['A'], i['b'], rcond=None)[0]
    if how == 'zerorow':                    # says nothing
        G[k] = 0
        F[k] = 0
        F[:, k] = 0
        h[k] = rng.choice([.5, 1., 2.])
    elif how == 'box':                      # bounds of coordinates
        G[:] = np.eye(nz)[rng.randint(nz, size=m)] * rng.choice([-1, 1], (m, 1))
        h[:] = G @ x0 + rng.choice([.5, 1., 2.], m)
    elif how == 'dup':                      # the same constraint twice
        j = rng.randint(m)
        G[k], h[k] = G[j], h[j]
        F[k] = F[j] = 0
        F[:, k] = F[:, j] = 0
    else:
        G[:] = np.round(G)
        h[:] = np.ceil(G @ x0) + rng.randint(1, 3, m)
        i['p'] = np.round(p)


def draw(seed, kind, nz, m, neq, nb, neat=None):
    rng = np.random.RandomState(seed)
    out = []
    tries = 0
    while len(out) < nb:
        tries += 1
        if tries > 50:
            return None, rng
        i = O.rand_lcp(rng, kind, nz, m, neq)
        if neat:
            make_neat(i, kind, neat, rng)
        i['kind'] = kind
        s = O.solvable({k: i[k] for k in 'QpGhAbF'})
        if s is not None:
            out.append((i, s))
    return out, rng


KINDS = ['zero', 'scaled', 'diag', 'psd', 'asym', 'fric']


def gen_spec(rng, maxb=5):
    nz = rng.randint(1, 14)
    return {'seed': rng.randrange(2 ** 31), 'kind': rng.choice(KINDS), 'nz': nz, 'm': rng.randint(1, 18),
            'neq': min(rng.choice([0, 0, 1, 2, 3]), nz - 1), 'nb': rng.choice([1, 1, 2, maxb]),
            'lim': rng.choice([3, 10, 50]), 'mi': rng.choice([40, 100])}
