"""Judging reported contacts against reference geometry."""
import numpy as np
from geom import separation, lower_separation, poly_dist, face_normals, boundary_dist


def surf(S, p, x):
    """Distance of x to the boundary of the shape."""
    if S.t == 'circle':
        return abs(float(np.linalg.norm(x - p[1:])) - S.rad)
    return boundary_dist(x, S.verts(p))


def along(S, p, n):
    """Extent of the shape along n: (min, max)."""
    if S.t == 'circle':
        c = p[1:] @ n
        return c - S.rad, c + S.rad
    d = S.verts(p) @ n
    return d.min(), d.max()


def judge(r, S, P, excl, contacts, eps, tol, near=None, far_known=False):
    """All contacts and all pairs against reference geometry."""
    n = len(S)
    by = {}
    for c in contacts:
        if not (0 <= c[4] < n and 0 <= c[5] < n and c[4] != c[5]):
            r.fail('contact between impossible bodies %s and %s' % (c[4], c[5]))
            return
        by.setdefault(frozenset(c[4:6]), []).append(c)
    for i in range(n):
        for j in range(i):
            cs = by.get(frozenset((i, j)), [])
            pair = '%s-%s' % tuple(sorted((S[i].t, S[j].t)))
            if frozenset((i, j)) in excl:
                r.events += 1
                r.count('excluded pairs')
                if cs:
                    r.fail('contact reported between bodies %d and %d, which are declared not to collide' % (j, i))
                continue
            if lower_separation(S[i], P[i], S[j], P[j]) > 2 * eps + tol:
                r.count('far pairs')
                if cs:
                    r.fail('contact reported between bodies %d and %d, at least %.4g apart (margin %g)' % (
                        j, i, lower_separation(S[i], P[i], S[j], P[j]), eps))
                continue
            r.events += 1
            s = separation(S[i], P[i], S[j], P[j])
            if S[i].t == S[j].t == 'circle' and np.linalg.norm(P[i][1:] - P[j][1:]) < 1e-6 * S[i].rad:
                continue
            kind = 'fv'
            if S[i].t != 'circle' and S[j].t != 'circle' and s > 0:
                kind = poly_dist(S[i].verts(P[i]), S[j].verts(P[j]))[1]
            if s > eps + tol:
                r.count('withheld ' + pair)
                r.nontrivial = True
                if cs:
                    r.fail('contact reported between bodies %d (%s) and %d (%s) that are %.6g apart (margin %g)' % (
                        j, S[j].t, i, S[i].t, s, eps), poses=[P[j], P[i]])
                continue
            if not cs:
                if s < eps - tol and kind != 'vv':
                    r.fail('no contact reported between bodies %d (%s) and %d (%s): separation %.6g, margin %g' % (
                        j, S[j].t, i, S[i].t, s, eps), poses=[P[j], P[i]])
                continue
            r.nontrivial = True
            r.count('contacts ' + pair, len(cs))
            r.count('contacts overlapping' if s < 0 else 'contacts within the margin', len(cs))
            fields(r, S, P, cs, s, kind, eps, tol)


def fields(r, S, P, cs, s, kind, eps, tol):
    best = -1e300
    for nrm, p1, p2, pen, i, j in cs:
        if not np.isfinite([*nrm, *p1, *p2, pen]).all():
            r.fail('contact with non-finite numbers', contact=(nrm, p1, p2, pen))
            return
        best = max(best, pen)
        if abs(np.linalg.norm(nrm) - 1) > 1e-9:
            r.fail('contact normal of length %.9g' % np.linalg.norm(nrm))
            return
        x1, x2 = p1 + P[i][1:], p2 + P[j][1:]
        if np.abs(x1 - x2).max() > tol:
            r.fail('contact points of the two bodies are %.4g apart in the world' % np.abs(x1 - x2).max(), types=[S[i].t, S[j].t])
            return
        # separation of i from j along the normal
        sn = along(S[i], P[i], nrm)[0] - along(S[j], P[j], nrm)[1]
        soft = 2 * tol
        for a in (i, j):
            if S[a].t == 'circle' and S[i + j - a].t != 'circle':
                # a direction taken from the centre to a boundary this close has rounding
                d = max(abs(s + S[a].rad), 1e-8 * S[a].rad)
                soft += 200 * S[i + j - a].extent * 2.2e-16 * np.abs(P[a]).max() / d
        if kind != 'vv' and abs(sn - s) > soft:
            r.fail('contact normal of %s against %s is not the separating direction: separation along it %.6g, true %.6g' % (
                S[i].t, S[j].t, sn, s), normal=nrm, poses=[P[i], P[j]])
            return
        if pen < -eps - tol or pen > -sn + soft:
            r.fail('contact depth %.6g outside what the shapes allow (%.6g, margin %g)' % (pen, -sn, eps))
            return
        ok = False
        m = 1e300
        for t in (0., .5, 1.):
            qi, qj = x1 - t * pen * nrm, x1 + (1 - t) * pen * nrm
            m = min(m, max(surf(S[i], P[i], qi), surf(S[j], P[j], qj)))
        r.maxi('contact point off the surfaces / tolerance', m / tol)
        if m > tol + soft:
            r.fail('contact point of %s against %s lies %.4g off the surfaces' % (S[i].t, S[j].t, m), point=x1, depth=pen,
                   normal=nrm, poses=[P[i], P[j]])
            return
    if kind != 'vv':
        r.maxi('depth error / tolerance', abs(best + s) / tol)
        if abs(best + s) > tol + soft:
            r.fail('deepest contact of %s against %s has depth %.6g, true %.6g' % (S[cs[0][4]].t, S[cs[0][5]].t, best, -s),
                   poses=[P[cs[0][4]], P[cs[0][5]]])
            return
    # both ends of a face-to-face contact
    nrm, i, j = cs[0][0], cs[0][4], cs[0][5]
    if S[i].t == 'circle' or S[j].t == 'circle' or kind == 'vv':
        return
    patch = contact_patch(S[i].verts(P[i]), S[j].verts(P[j]), nrm, eps)
    if patch is None:
        r.count('patches not judged')
        return
    tang = np.array([-nrm[1], nrm[0]])
    got = [(c[1] + P[i][1:]) @ tang for c in cs]
    r.count('patches with %d ends' % len(patch))
    for x, gap in patch:
        if gap < eps - 10 * tol and min(abs(g - x) for g in got) > 1e3 * tol + abs(gap) * .05:
            r.fail('an end of the contact patch between two faces is not reported (gap %.4g, margin %g)' % (gap, eps),
                   normal=nrm, poses=[P[i], P[j]], ends=patch, got=got)
            return


def contact_patch(Vi, Vj, n, eps):
    """Ends (tangential coordinate, gap) of the stretch where the reference face
    and the facing face of the other hull lie over each other; None if it is not
    clear which faces these are."""
    tang = np.array([-n[1], n[0]])

    def facing(V, d):
        dots = face_normals(V) @ d
        o = np.argsort(dots)[::-1]
        return int(o[0]), dots[o[0]], dots[o[1]]
    ki, di, di2 = facing(Vi, -n)
    kj, dj, dj2 = facing(Vj, n)
    if min(di - di2, dj - dj2) < 1e-3:
        return None
    if max(di, dj) < 1 - 1e-9:
        return None
    e1 = (Vi[ki], Vi[(ki + 1) % len(Vi)])
    e2 = (Vj[kj], Vj[(kj + 1) % len(Vj)])
    a = sorted(x @ tang for x in e1)
    b = sorted(x @ tang for x in e2)
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if hi - lo < 1e-3 * (1e-9 + min(a[1] - a[0], b[1] - b[0])):
        return None

    def height(e, t):
        u, v = e
        w = (t - u @ tang) / ((v - u) @ tang)
        return (u + w * (v - u)) @ n
    return [(t, height(e1, t) - height(e2, t)) for t in (lo, hi)]
