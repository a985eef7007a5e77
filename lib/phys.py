"""Reference rigid-body dynamics used by the monitors (numpy, independent of the library)."""
import numpy as np
from scipy.optimize import nnls

from geom import Shape, rot, separation, lower_separation
from scenes import force_ref, init_pose, e_of, mu_of, mass_of, excluded


def npv(t):
    return t.detach().cpu().numpy().astype(float).copy()


class Stop(Exception):
    """The monitor has seen enough of this execution."""


class Ref:
    """Reference description of a scene: masses, shapes, joints, forces."""
    def __init__(self, spec):
        self.spec = spec
        B = spec['bodies']
        self.n = len(B)
        self.shapes = [Shape(b) for b in B]
        self.m = np.array([mass_of(b) for b in B], float)
        self.I = np.array([s.inertia(m) for s, m in zip(self.shapes, self.m)])
        self.Md = np.stack([self.I, self.m, self.m], 1).reshape(-1)
        self.e = np.array([e_of(b) for b in B], float)
        self.mu = np.array([mu_of(b) for b in B], float)
        self.p0 = [init_pose(b) for b in B]
        self.excl = excluded(spec)
        self.joints = []
        for j in spec.get('joints', ()):
            d = dict(j)
            if j['k'] == 'joint':
                p1 = self.p0[j['b1']]
                d['r1'] = np.asarray(j['pos'], float) - p1[1:]
                d['th1'] = p1[0]
                if j.get('b2') is not None:
                    p2 = self.p0[j['b2']]
                    d['r2'] = np.asarray(j['pos'], float) - p2[1:]
                    d['th2'] = p2[0]
            self.joints.append(d)

    def force(self, t):
        out = np.zeros((self.n, 3))
        for i, b in enumerate(self.spec['bodies']):
            for f in b.get('forces', ()):
                out[i] += force_ref(f, t, self.m[i])
        return out.reshape(-1)

    def Je(self, p):
        """Constraint Jacobian at poses p (n,3)."""
        rows = []
        n = 3 * self.n
        for j in self.joints:
            a = 3 * j['b1']
            if j['k'] in ('x', 'y', 'rot', 'total'):
                for k in {'x': (1,), 'y': (2,), 'rot': (0,), 'total': (0, 1, 2)}[j['k']]:
                    r = np.zeros(n)
                    r[a + k] = 1
                    rows.append(r)
                continue
            if j['k'] == 'joint':
                r1 = rot(p[j['b1']][0] - j['th1']) @ j['r1']
            else:
                r1 = np.zeros(2)
            A = np.zeros((2, n))
            A[0, a], A[1, a], A[0, a + 1], A[1, a + 2] = -r1[1], r1[0], 1, 1
            if j.get('b2') is not None:
                c = 3 * j['b2']
                r2 = p[j['b1']][1:] + r1 - p[j['b2']][1:]
                A[0, c], A[1, c], A[0, c + 1], A[1, c + 2] = r2[1], -r2[0], -1, -1
            rows += [A[0], A[1]]
            if j['k'] == 'fixed':
                r = np.zeros(n)
                r[a], r[3 * j['b2']] = 1, -1
                rows.append(r)
        return np.array(rows).reshape(len(rows), n)

    def Jn_t(self, contacts):
        """Normal and tangential relative-velocity rows of the contacts."""
        N = np.zeros((len(contacts), 3 * self.n))
        T = np.zeros_like(N)
        for k, (nrm, p1, p2, pen, i, j) in enumerate(contacts):
            for J, d in ((N, nrm), (T, np.array([-nrm[1], nrm[0]]))):
                J[k, 3 * i:3 * i + 3] = [p1[0] * d[1] - p1[1] * d[0], d[0], d[1]]
                J[k, 3 * j:3 * j + 3] -= [p2[0] * d[1] - p2[1] * d[0], d[0], d[1]]
        return N, T

    def energy(self, v):
        return 0.5 * float((self.Md * v * v).sum())

    def overlap(self, P):
        """Deepest overlap over the pairs that may collide (negative: clearance), and the pair."""
        best = (-1e9, None)
        for i in range(self.n):
            for j in range(i):
                if frozenset((i, j)) in self.excl:
                    continue
                if lower_separation(self.shapes[i], P[i], self.shapes[j], P[j]) > 0.5:
                    continue
                s = separation(self.shapes[i], P[i], self.shapes[j], P[j])
                if -s > best[0]:
                    best = (-s, (j, i))
        return best


def contacts_np(world):
    out = []
    for c in world.contacts or ():
        g = c[0]
        out.append((npv(g[0]).reshape(2), npv(g[1]).reshape(2), npv(g[2]).reshape(2),
                    float(g[3].item()), int(c[1]), int(c[2])))
    return out


class Snap:
    def __init__(self, world):
        self.p = np.stack([npv(b.p) for b in world.bodies])
        self.v = npv(world.get_v())
        self.t = float(world.t)
        self.contacts = contacts_np(world)


def monitor_engine(log, limit=None, base=None, more=()):
    """An engine class (passed through World's public `engine` argument) that
    records every velocity solve and delegates to the real engine.  For the
    solves numbered in `more` it also records what a larger iteration limit gives."""
    from lcp_physics.physics.engines import PdipmEngine
    base = base or PdipmEngine

    class Monitored(base):
        def solve_dynamics(self, world, dt):
            if limit is not None and len(log) >= limit:
                raise Stop()
            v0 = npv(world.get_v())
            p0 = np.stack([npv(b.p) for b in world.bodies])
            nc = len(world.contacts or ())
            alt = npv(base(max_iter=60).solve_dynamics(world, dt)) if len(log) in more else None
            v = super().solve_dynamics(world, dt)
            log.append({'t': float(world.t), 'dt': float(dt), 'v0': v0, 'p0': p0, 'v': npv(v), 'nc': nc, 'alt': alt})
            return v
    return Monitored


def impulse_residual(ref, s0, v1, dt, friction_law=True, tol=1e-6):
    """How far the velocity change is from one that the contact law allows.

    imp = M (v1 - v0) - dt f must be a combination of constraint impulses
    (any sign) and, at the contacts that are active, pushes along the normal
    with a tangential part inside the friction cone, opposing the slip.
    Returns (relative residual of the nearest admissible impulse, details)."""
    f = ref.force(s0.t)
    sq = np.sqrt(ref.Md)
    imp = (ref.Md * (v1 - s0.v) - dt * f) / sq
    scale = np.linalg.norm(sq * v1) + np.linalg.norm(sq * s0.v) + np.linalg.norm(dt * f / sq) + 1e-9
    Je = ref.Je(s0.p)
    s_dt = np.abs(dt * f / ref.Md)
    gens = []
    info = {'active': 0, 'sliding': 0, 'sticking': 0}
    if s0.contacts:
        N, T = ref.Jn_t(s0.contacts)
        vs = (np.abs(N) @ (np.abs(v1) + np.abs(s0.v) + s_dt)).max() + 1e-300
        for k, c in enumerate(s0.contacts):
            i, j = c[4], c[5]
            e, mu = (ref.e[i] + ref.e[j]) / 2, (ref.mu[i] + ref.mu[j]) / 2
            nk = N[k] @ v1 + e * (N[k] @ s0.v)
            if nk > tol * vs * 10:
                continue
            info['active'] += 1
            vt = T[k] @ v1
            if not friction_law:
                gens.append(N[k] / sq)
                # tangential part free here (its law is another property)
                if mu > 0:
                    gens += [(N[k] + mu * T[k]) / sq, (N[k] - mu * T[k]) / sq, T[k] / sq, -T[k] / sq]
                continue
            if abs(vt) > tol * vs * 10:
                info['sliding'] += 1
                gens.append((N[k] - mu * np.sign(vt) * T[k]) / sq)
            else:
                info['sticking'] += 1
                gens += [(N[k] + mu * T[k]) / sq, (N[k] - mu * T[k]) / sq]
    if len(Je):
        B = (Je / sq).T
        U, S, _ = np.linalg.svd(B, full_matrices=False)
        U = U[:, S > 1e-9 * S.max()]
        imp = imp - U @ (U.T @ imp)
        gens = [g - U @ (U.T @ g) for g in gens]
    if gens:
        A = np.stack(gens, 1)
        col = np.linalg.norm(A, axis=0)
        A = A[:, col > 1e-12] / col[col > 1e-12]
    if gens and A.shape[1]:
        x, res = nnls(A, imp, maxiter=50 * A.shape[1] + 100)
    else:
        res = np.linalg.norm(imp)
    return res / scale, info
