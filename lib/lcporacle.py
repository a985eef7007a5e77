"""Mixed LCP reference solver and random monotone instances (numpy only).

   Q x + p + G'l + A'n = 0,  A x = b,  s = h + F l - G x >= 0,  l >= 0,  l.s = 0
"""
import numpy as np


def lemke(M, q, maxit=2000):
    """Lemke's complementary pivoting, w = M z + q.  None if it ends on a ray."""
    n = len(q)
    if (q >= 0).all():
        return np.zeros(n)
    # tableau: w - M z - 1 z0 = q ; columns w(0..n-1) z(n..2n-1) z0(2n)
    T = np.hstack([np.eye(n), -M, -np.ones((n, 1)), q[:, None]]).astype(float)
    basis = list(range(n))
    r = int(np.argmin(q))
    ent = 2 * n
    for _ in range(maxit):
        T[r] /= T[r, ent]
        for i in range(n):
            if i != r:
                T[i] -= T[i, ent] * T[r]
        leave = basis[r]
        basis[r] = ent
        if leave == 2 * n:
            break
        ent = leave + n if leave < n else leave - n
        col = T[:, ent]
        pos = col > 1e-11
        if not pos.any():
            return None
        ratio = np.where(pos, T[:, -1] / np.where(pos, col, 1), np.inf)
        m = ratio.min()
        cand = np.where(ratio <= m + 1e-12 * max(1, abs(m)))[0]
        r = int(cand[0])
        for c in cand:
            if basis[c] == 2 * n:
                r = int(c)
    else:
        return None
    z = np.zeros(2 * n + 1)
    for i, b in enumerate(basis):
        z[b] = T[i, -1]
    return z[n:2 * n]


def solve(Q, p, G, h, A, b, F):
    """Certified solution (x, lam, s, nu, residual) or None."""
    n = len(p)
    neq = 0 if A is None else len(A)
    m = len(h)
    if neq:
        K = np.block([[Q, A.T], [A, np.zeros((neq, neq))]])
    else:
        K = Q
    R0 = np.linalg.solve(K, np.concatenate([-p, b]) if neq else -p)
    RG = np.linalg.solve(K, np.vstack([-G.T, np.zeros((neq, m))]))
    # x = R0[:n] + RG[:n] l ; s = h + F l - G x
    M = F - G @ RG[:n]
    q = h - G @ R0[:n]
    sc = np.sqrt(np.maximum(np.abs(np.diag(M)), 1e-3))
    lam = lemke(M / sc[:, None] / sc[None, :], q / sc)
    if lam is None:
        return None
    lam = lam / sc
    # polish on the active set
    act = lam > 0
    for _ in range(2):
        if act.any():
            try:
                la = np.linalg.lstsq(M[np.ix_(act, act)], -q[act], rcond=None)[0]
                l2 = np.zeros(m)
                l2[act] = la
                if (l2 >= -1e-12).all() and (M @ l2 + q >= -1e-9 * (1 + np.abs(q).max())).all():
                    lam = np.maximum(l2, 0)
            except np.linalg.LinAlgError:
                pass
    y = R0 + RG @ lam
    x, nu = y[:n], y[n:]
    s = h + F @ lam - G @ x
    sc = 1 + np.abs(x).max() + np.abs(lam).max()
    res = max(np.abs(Q @ x + p + G.T @ lam + (A.T @ nu if neq else 0)).max(),
              np.abs(A @ x - b).max() if neq else 0., max(0., -s.min()), max(0., -lam.min()),
              np.abs(lam * s).max() / sc) / sc
    return x, lam, s, nu, res


def rand_lcp(rng, kind, nz, m, neq):
    """One instance (dict of lists) of the given kind; numpy RandomState rng."""
    L = rng.randn(nz, nz)
    if kind in ('fric', 'diag'):
        Q = np.diag(rng.uniform(.3, 8, nz))
    else:
        Q = L @ L.T / nz + np.diag(rng.uniform(.2, 2, nz))
    p = rng.randn(nz) * rng.choice([.3, 3, 30])
    x0 = rng.randn(nz)
    A = rng.randn(neq, nz) if neq else None
    b = A @ x0 if neq else None
    if kind == 'fric':
        # contact problem: nc contacts, 2 friction directions each
        nc = max(1, m // 4)
        Jc = rng.randn(nc, nz)
        Jt = rng.randn(nc, nz)
        Jf = np.stack([Jt, -Jt], 1).reshape(2 * nc, nz)
        G = np.vstack([Jc, Jf, np.zeros((nc, nz))])
        m = 4 * nc
        F = np.zeros((m, m))
        for i in range(nc):
            for k in range(2):
                F[nc + 2 * i + k, 3 * nc + i] = 1
                F[3 * nc + i, nc + 2 * i + k] = -1
            F[3 * nc + i, i] = rng.uniform(.05, 1)
        # homogeneous constraints: x=0 is feasible when b=0
        if neq:
            b = np.zeros(neq)
        h = np.zeros(m)
        h[:nc] = rng.choice([0, 1]) * rng.uniform(0, 2, nc)
        return dict(Q=Q, p=p, G=G, h=h, A=A, b=b, F=F)
    G = rng.randn(m, nz)
    if kind == 'scaled':
        G = G * 10. ** rng.uniform(-1, 1, (m, 1))
    h = G @ x0 + rng.uniform(0, 1, m) * rng.choice([0.1, 1., 5.])
    if kind in ('zero', 'scaled', 'diag'):
        F = np.zeros((m, m))
    elif kind == 'psd':
        B = rng.randn(m, m)
        F = .2 * B @ B.T / m
    else:   # asymmetric monotone
        B = rng.randn(m, m)
        F = .5 * (B - B.T) + np.diag(rng.uniform(0.05, .5, m))
    return dict(Q=Q, p=p, G=G, h=h, A=A, b=b, F=F)


def tensors(insts, dtype=None):
    import torch
    dtype = dtype or torch.double
    out = []
    for k in ('Q', 'p', 'G', 'h', 'A', 'b', 'F'):
        if insts[0][k] is None:
            out.append(torch.tensor([]))
        else:
            out.append(torch.tensor(np.stack([np.asarray(i[k], float) for i in insts]), dtype=dtype))
    return out


def solvable(inst):
    sol = solve(**{k: (None if inst[k] is None else np.asarray(inst[k], float)) for k in inst})
    if sol is None or not sol[4] < 1e-9:
        return None
    return sol


def mehrotra(Q, p, G, h, A, b, F, iters=100):
    """The textbook predictor-corrector iteration the solver documents, with one
    common step length (numpy, full KKT matrix).  Returns the best x.  Used only
    to recognise problems on which that algorithm itself cycles."""
    n, m = len(p), len(h)
    ne = 0 if A is None else len(A)
    A_ = np.zeros((0, n)) if A is None else A
    b_ = np.zeros(0) if b is None else b
    K = np.zeros((n + 2 * m + ne,) * 2)
    K[:n, :n] = Q
    K[:n, n + m:n + 2 * m] = G.T
    K[:n, n + 2 * m:] = A_.T
    K[n:n + m, n + m:n + 2 * m] = np.eye(m)
    K[n + m:n + 2 * m, :n] = G
    K[n + m:n + 2 * m, n:n + m] = np.eye(m)
    K[n + m:n + 2 * m, n + m:n + 2 * m] = -F
    K[n + 2 * m:, :n] = A_
    ix = np.arange(n, n + m)

    def solve(d, *r):
        K[ix, ix] = d
        w = -np.linalg.solve(K, np.concatenate(r))
        return w[:n], w[n:n + m], w[n + m:n + 2 * m], w[n + 2 * m:]

    def step(v, dv):
        neg = dv < 0
        return min(1., (-v[neg] / dv[neg]).min()) if neg.any() else 1.

    best = (np.inf, None)
    try:
        x, s, z, y = solve(np.ones(m), p, np.zeros(m), -h, -b_)
        if s.min() <= 0:
            s = s - s.min() + 1
        if z.min() <= 0:
            z = z - z.min() + 1
        for _ in range(iters):
            rx = Q @ x + p + G.T @ z + A_.T @ y
            rz = G @ x + s - h - F @ z
            ry = A_ @ x - b_
            mu = s @ z / m
            res = np.linalg.norm(rx) + np.linalg.norm(rz) + np.linalg.norm(ry) + m * mu
            if res < best[0]:
                best = (res, x.copy())
            if not res > 1e-13:
                break
            d = z / s
            dx, ds, dz, dy = solve(d, rx, z, rz, ry)
            a = min(step(s, ds), step(z, dz))
            sig = (((s + a * ds) @ (z + a * dz)) / (s @ z)) ** 3
            cx, cs, cz, cy = solve(d, np.zeros(n), (ds * dz - mu * sig) / s, np.zeros(m), np.zeros(ne))
            dx, ds, dz, dy = dx + cx, ds + cs, dz + cz, dy + cy
            a = min(1., .999 * min(step(s, ds), step(z, dz)))
            x, s, z, y = x + a * dx, s + a * ds, z + a * dz, y + a * dy
    except np.linalg.LinAlgError:
        pass
    return best[1]
