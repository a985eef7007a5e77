"""Reference planar geometry, written from textbook definitions with numpy only."""
import math
import numpy as np


def rot(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s], [s, c]])


def area_centroid(P):
    """Fan triangulation."""
    P = np.asarray(P, float)
    o = P[0]
    A, C = 0., np.zeros(2)
    for i in range(1, len(P) - 1):
        u, v = P[i] - o, P[i + 1] - o
        a = 0.5 * (u[0] * v[1] - u[1] * v[0])
        A += a
        C += a * (o + P[i] + P[i + 1]) / 3
    return A, C / A


def polygon_inertia(P, mass):
    """Second moment about the centroid, by triangles: for a triangle about the
    origin, int |x|^2 = A/6 * sum_{i<=j} v_i.v_j (vertices v_i)."""
    P = np.asarray(P, float)
    A, c = area_centroid(P)
    Q = P - c
    J = 0.
    for i in range(len(Q)):
        u, v = Q[i], Q[(i + 1) % len(Q)]
        a = 0.5 * (u[0] * v[1] - u[1] * v[0])
        J += a / 6 * (u @ u + u @ v + v @ v)
    return mass * J / A


def seg_dist(p, a, b):
    """Distance of p to segment ab and the closest point."""
    d = b - a
    t = min(1., max(0., (p - a) @ d / (d @ d)))
    q = a + t * d
    return float(np.linalg.norm(p - q)), q, t


def face_normals(P):
    e = np.roll(P, -1, axis=0) - P
    n = np.stack([e[:, 1], -e[:, 0]], 1)
    return n / np.linalg.norm(n, axis=1)[:, None]


def point_poly(p, P):
    """Signed distance of a point to a convex CCW polygon, outward unit normal
    of the closest feature, closest boundary point."""
    n = face_normals(P)
    d = np.einsum('ij,ij->i', n, p - P)
    k = int(np.argmax(d))
    if d[k] <= 0:
        return float(d[k]), n[k], p - d[k] * n[k]
    best = None
    for i in range(len(P)):
        s, q, t = seg_dist(p, P[i], P[(i + 1) % len(P)])
        if best is None or s < best[0]:
            best = (s, q)
    return best[0], (p - best[1]) / max(best[0], 1e-300), best[1]


def boundary_dist(p, P):
    return min(seg_dist(p, P[i], P[(i + 1) % len(P)])[0] for i in range(len(P)))


def sat(P, Q):
    """Largest separation over face normals of P and Q (>0: disjoint); and a
    list of (separation, normal pointing from P to Q)."""
    out = []
    for n, a in zip(face_normals(P), P):
        out.append((float(((Q - a) @ n).min()), n))
    for n, a in zip(face_normals(Q), Q):
        out.append((float(((P - a) @ n).min()), -n))
    return max(o[0] for o in out), out


def poly_dist(P, Q):
    """True distance of disjoint polygons, 0 when they overlap; with the type
    of the closest pair: 'fv' (vertex against the inside of an edge) or 'vv'."""
    if sat(P, Q)[0] <= 0:
        return 0., 'overlap'
    best = (1e300, None)
    for A, B in ((P, Q), (Q, P)):
        for i in range(len(A)):
            a, b = A[i], A[(i + 1) % len(A)]
            for v in B:
                s, q, t = seg_dist(v, a, b)
                if s < best[0] - 1e-12:
                    best = (s, 'fv' if 1e-9 < t < 1 - 1e-9 else 'vv')
    return best


class Shape:
    """Geometry of a body, rebuilt from the spec that the user passed."""
    def __init__(self, b):
        self.t = b['t']
        if self.t == 'circle':
            self.rad = float(b['rad'])
            self.local = None
            self.extent = self.rad
        else:
            if self.t == 'rect':
                w, h = b['dims'][0] / 2., b['dims'][1] / 2.
                P = np.array([[w, h], [-w, h], [-w, -h], [w, -h]])
            else:
                P = np.array(b['verts'], float)
                P = P - area_centroid(P)[1]
            self.local = P
            self.extent = float(np.linalg.norm(P, axis=1).max())

    def verts(self, p):
        return self.local @ rot(p[0]).T + np.asarray(p[1:], float)

    def inertia(self, mass):
        if self.t == 'circle':
            return mass * self.rad ** 2 / 2
        return polygon_inertia(self.local, mass)


def separation(A, pa, B, pb):
    """Signed separation of two shapes at poses pa, pb (negative: depth)."""
    pa, pb = np.asarray(pa, float), np.asarray(pb, float)
    if A.t == 'circle' and B.t == 'circle':
        return float(np.linalg.norm(pa[1:] - pb[1:])) - A.rad - B.rad
    if A.t == 'circle':
        return point_poly(pa[1:], B.verts(pb))[0] - A.rad
    if B.t == 'circle':
        return point_poly(pb[1:], A.verts(pa))[0] - B.rad
    P, Q = A.verts(pa), B.verts(pb)
    s = sat(P, Q)[0]
    return s if s <= 0 else poly_dist(P, Q)[0]


def lower_separation(A, pa, B, pb):
    """Cheap lower bound from the bounding circles."""
    return float(np.hypot(pa[1] - pb[1], pa[2] - pb[2])) - A.extent - B.extent
