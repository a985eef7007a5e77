"""C18: recording and displaying"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import time

_now, _on = [0.], [False]
_real = time.time, time.sleep


def _time():
    return _now[0] if _on[0] else _real[0]()


def _sleep(s):
    if not _on[0]:
        return _real[1](s)
    _now[0] += s


time.time, time.sleep = _time, _sleep     # (before the library is imported) a clock that only sleeping and stepping advance

import contextlib
import io
import math
import random
import shutil
import tempfile
import numpy as np
import sim
from phys import npv
from scenes import make_body, make_joint, rescale
from geom import Shape, rot, seg_dist

ID = 'C18'
RULE = ('random scenes run by the main loop without screen, with a recorder, with a display under a virtual clock, and ended by a quit '
        'event, at several scales; states compared bit by bit with a plain loop of steps, every picture compared with the outlines of '
        'the bodies; distinct = scene, mode; non-trivial when pictures were judged or states compared')
ASSUME = ['SDL dummy driver and software surfaces', 'time functions of the standard library are replaced by a virtual clock']
TOL = 4.
MODES = ['record', 'display', 'record', 'plain', 'quit']
SIZE = (640, 560)


def gen(rng, tier):
    n = 120 if tier == 'quick' else 3000
    out = sim.workload(rng, tier, n, kinds=['collide', 'floor', 'free', 'mixed', 'linkage', 'chain', 'box', 'stack'], demos=False, scales=False)
    for i, c in enumerate(out):
        s = c['scene']
        c['mode'] = MODES[i % len(MODES)]
        c['seed'] = rng.randrange(2 ** 31)
        c['ppm'] = ppm = rng.choice([1, 1, 1., 2, .5, 10, 40.])
        dt = s.get('world', {}).get('dt', 1 / 30.)
        if ppm != 1:
            c['scene'] = rescale(s, 1. / ppm)
        for k, b in enumerate(c['scene']['bodies']):
            b['col'] = [(40 + 37 * k) % 250, (200 - 53 * k) % 240, (90 + 71 * k) % 230]
            b['thickness'] = rng.choice([1, 1, 1, 2, 3, 0])
        c['time'] = dt * rng.uniform(5, 20)
        c['frame_dt'] = rng.choice([dt, dt, 2 * dt, 1.5 * dt, 1 / 10., 1 / 3., dt / 2])
        c['cost'] = dt * rng.choice([.01, .5, .99, 1.7])      # what a step costs on the clock
    return out


# ---------------------------------------------------------------- pictures
def seg_d(X, a, b):
    d = b - a
    t = np.clip(((X - a) @ d) / max(d @ d, 1e-12), 0, 1)
    return np.linalg.norm(X - a - t[:, None] * d, axis=1)


class Picture:
    """What ought to be seen, in pixels."""
    def __init__(self, case, P):
        ppm = float(case['ppm'])
        spec = case['scene']
        self.spec = spec
        self.out, self.blue, self.green, self.shape = [], [], [], []
        for b, p in zip(spec['bodies'], P):
            S = Shape(b)
            c = p[1:] * ppm
            if b['t'] == 'circle':
                self.out.append(('c', c, S.rad * ppm))
                self.blue.append([(c, c + S.rad * ppm * np.array([math.cos(p[0]), math.sin(p[0])]))])
            else:
                V = S.verts(p) * ppm
                self.out.append(('p', V, None))
                self.blue.append([(V[0], V[2]), (V[1], V[3])] if b['t'] == 'rect' else [(c, c)])
        for j in spec.get('joints', ()):
            a = P[j['b1']]
            if j['k'] == 'joint':
                q = case['anchor'][len(self.green)]
                x = (a[1:] + rot(a[0]) @ q) * ppm
                self.green.append((x, x, 2))
            elif j['k'] == 'fixed':
                self.green.append((a[1:] * ppm, P[j['b2']][1:] * ppm, 0))
            else:
                self.green.append((a[1:] * ppm, a[1:] * ppm, 5))

    def d_out(self, k, X):
        t, a, b = self.out[k]
        if t == 'c':
            d = np.linalg.norm(X - a, axis=1)
            return abs(d - b), d - b
        D = np.min([seg_d(X, a[i], a[(i + 1) % len(a)]) for i in range(len(a))], axis=0)
        n = np.roll(a, -1, axis=0) - a
        n = np.stack([n[:, 1], -n[:, 0]], 1)
        s = np.max([(X - a[i]) @ n[i] for i in range(len(a))], axis=0)
        return D, np.where(s > 0, D, -D)

    def d_segs(self, S, X, extra=0.):
        return np.min([seg_d(X, s[0], s[1]) for s in S], axis=0) - extra

    def d_green(self, X, wide=0.):
        if not self.green:
            return np.full(len(X), 1e9)
        return np.min([seg_d(X, a, b) - (e * 1.5 + wide) for a, b, e in self.green], axis=0)

    def points(self, k):
        t, a, b = self.out[k]
        if t == 'c':
            th = np.linspace(0, 6.28, 24, endpoint=False)
            return a + b * np.stack([np.cos(th), np.sin(th)], 1)
        f = np.linspace(.06, .94, 6)[:, None]
        return np.concatenate([a[i] + f * (a[(i + 1) % len(a)] - a[i]) for i in range(len(a))])

    def judge(self, img):
        """None if the picture is right, else what is wrong.  img: (w, h, 3)."""
        B = self.spec['bodies']
        n = len(B)
        known = (img == 255).all(2)
        at = []
        for k, b in enumerate(B):
            m = (img == np.array(b['col'])).all(2)
            known |= m
            X = np.argwhere(m).astype(float)
            at.append(X)
            if not len(X):
                continue
            d, s = self.d_out(k, X)
            lim = TOL + b['thickness']
            if b['thickness'] == 0:
                d = s
            if b['t'] == 'circle' and b['thickness'] > 1 and (abs(self.out[k][1] - np.array(SIZE) / 2) + self.out[k][2] > np.array(SIZE) / 2 - 2).any():
                continue        # the drawing library leaves stray pixels in wide circles that are cut by the border
            if d.max() > lim:
                return 'body %d is drawn at pixel %s, %.1f pixels away from it' % (k, X[d.argmax()].astype(int).tolist(), d.max())
        blue = (img == np.array([0, 0, 255])).all(2)
        green = (img == np.array([0, 255, 0])).all(2)
        if not (known | blue | green).all():
            return 'colours that nothing has, at pixel %s' % np.argwhere(~(known | blue | green))[0].tolist()
        X = np.argwhere(blue).astype(float)
        if len(X):
            d = np.min([self.d_segs(s, X) for s in self.blue], axis=0)
            if d.max() > TOL + 2:
                return 'orientation mark %.1f pixels away from all bodies, at pixel %s' % (d.max(), X[d.argmax()].tolist())
        X = np.argwhere(green).astype(float)
        if len(X):
            d = self.d_green(X)
            if d.max() > TOL + 3:
                return 'joint mark %.1f pixels away from all joints, at pixel %s' % (d.max(), X[d.argmax()].tolist())
        # everything is there
        self.seen = 0
        for k in range(n):
            for what, P, Y in (('outline of body', self.points(k), at[k]), ('orientation of body', self.marks(k), np.argwhere(blue).astype(float))):
                P = P[((P > 6) & (P < np.array(SIZE) - 6)).all(1)] if len(P) else P
                if not len(P):
                    continue
                cov = self.d_green(P, 4) <= 0
                for j in range(n):
                    if j != k:
                        dj, sj = self.d_out(j, P)
                        cov |= (dj if B[j]['thickness'] else sj) < 5 + B[j]['thickness']
                        if what[1] != 'r':
                            cov |= self.d_segs(self.blue[j], P) < 5
                    if what[0] == 'o' and j == k and what[1] == 'r' and B[k]['thickness'] == 0:
                        cov |= True
                P = P[~cov]
                for x in P:
                    self.seen += 1
                    if not len(Y) or np.abs(Y - x).max(1).min() > TOL:
                        return '%s %d is not drawn near pixel %s' % (what, k, x.astype(int).tolist())
        Y = np.argwhere(green).astype(float)
        for a, b, e in self.green:
            x = (a + b) / 2
            if ((x > 6) & (x < np.array(SIZE) - 6)).all():
                self.seen += 1
                if not len(Y) or np.linalg.norm(Y - x, axis=1).min() > 6:
                    return 'a joint is not drawn near pixel %s' % x.astype(int).tolist()
        return None

    def marks(self, k):
        if self.spec['bodies'][k]['t'] == 'hull':
            return np.zeros((0, 2))
        f = np.array([.25, .5, .75])[:, None]
        t, a, b = self.out[k]
        P = np.concatenate([p + f * (q - p) for p, q in self.blue[k]])
        if t == 'c':
            return P if b > 12 else P[:0]
        return P[self.d_out(k, P)[0] > 7 + self.spec['bodies'][k]['thickness']]


def anchors(spec):
    from scenes import init_pose
    out = []
    for j in spec.get('joints', ()):
        if j['k'] == 'joint':
            p = init_pose(spec['bodies'][j['b1']])
            out.append(rot(-p[0]) @ (np.array(j['pos'][-2:], float) - p[1:]))
        else:
            out.append(None)
    return out


def build(spec):
    import torch
    from lcp_physics.physics.world import World
    from scenes import make_world
    bodies = [make_body(b) for b in spec['bodies']]
    for body, b in zip(bodies, spec['bodies']):
        body.col, body.thickness = tuple(b['col']), b['thickness']
    return make_world(spec, bodies=bodies)


def state(w):
    return (float(w.t), np.stack([npv(b.p) for b in w.bodies]), npv(w.get_v()))


def same(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2])


def run(case, r):
    import pygame
    import torch
    from lcp_physics.physics.world import run_world
    from lcp_physics.physics.utils import Recorder
    mode, spec = case['mode'], case['scene']
    rng = random.Random(case['seed'])
    r.key = [mode, spec['kind'], case['seed']]
    case = dict(case, anchor=anchors(spec))
    # the plain loop
    w = build(spec)
    random.seed(7)
    ref = [state(w)]
    attempts = 0
    while w.t < case['time'] and len(ref) < 150:
        w.step()
        ref.append(state(w))
    if len(ref) >= 150:
        return r.count('skipped: too many steps')
    quit_at = rng.randint(1, len(ref) - 1)

    pygame.display.init()
    screen = None
    if mode != 'plain':
        screen = pygame.display.set_mode(SIZE)
        if mode == 'record' and rng.random() < .5:
            screen = pygame.Surface(SIZE)
        screen.fill((3, 3, 3))
        pygame.event.clear()
    pics, got, clock = {}, [], []
    w = build(spec)
    step = w.step
    got.append(state(w))

    def watched(*a, **k):
        if screen is not None and mode != 'record':
            pics[len(got) - 1] = pygame.surfarray.array3d(screen).copy()
            clock.append((w.t, _now[0]))
        out = step(*a, **k)
        _now[0] += case['cost']
        got.append(state(w))
        if mode == 'quit' and len(got) - 1 == quit_at:
            pygame.event.post(pygame.event.Event(pygame.QUIT))
        elif rng.random() < .3 and screen is not None:
            pygame.event.post(pygame.event.Event(pygame.USEREVENT))
        return out
    w.step = watched
    tmp = tempfile.mkdtemp(prefix='c18')
    try:
        kw = {}
        if screen is not None:
            kw['screen'] = screen
        if case['ppm'] != 1 or rng.random() < .5:
            kw['pixels_per_meter'] = case['ppm']
        adt = w.dt
        if mode in ('display', 'quit') and rng.random() < .4:
            kw['animation_dt'] = adt = w.dt * rng.choice([.5, 2., 4.])
        path = os.path.join(tmp, 'a', 'frames')
        if mode == 'record':
            kw['recorder'] = Recorder(case['frame_dt'], screen, path=path)
        elif mode == 'plain' and rng.random() < .5:
            kw['recorder'] = None
        if rng.random() < .3:
            kw['print_time'] = False
        random.seed(7)
        _now[0] = 1e6 * rng.random()
        _on[0] = True
        t_start = _now[0]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                run_world(w, run_time=case['time'], **kw)
        finally:
            _on[0] = False
        want = ref[:quit_at + 1] if mode == 'quit' else ref
        r.events += len(want)
        r.nontrivial = True
        r.count('runs ' + mode)
        r.count('states compared', len(want))
        if len(got) != len(want):
            r.fail('%s: the loop made %d steps up to t=%g, expected %d up to t=%g' % (mode, len(got) - 1, got[-1][0], len(want) - 1, want[-1][0]))
            return
        for k, (a, b) in enumerate(zip(got, want)):
            if not same(a, b):
                r.fail('%s: state after step %d differs from the one of a plain loop by %g' % (mode, k, np.abs(a[1] - b[1]).max()), t=[a[0], b[0]])
                return
        if mode == 'record':
            frames(case, r, ref, path)
        elif screen is not None:
            pics[len(got) - 1] = pygame.surfarray.array3d(screen).copy()
            display(case, r, got, pics, clock, t_start, adt, mode, w)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def frames(case, r, ref, path):
    import pygame
    files = sorted(os.listdir(path))
    n = len(files)
    if sorted(files) != sorted('%d.bmp' % k for k in range(n)):
        r.fail('frames are called %s' % files[:20])
        return
    fdt = case['frame_dt']
    # states that frame k may show
    may, k, cnt = [], 0, 0
    for i, s in enumerate(ref[1:], 1):
        while len(may) <= k:
            may.append(set())
        if s[0] >= (k + 1) * fdt - 1e-9:
            may[k].add(i)
            if abs(s[0] - (k + 1) * fdt) < 1e-9 and i + 1 < len(ref):
                may[k].add(i + 1)
            k += 1
    border = any(abs(s[0] - (q + 1) * fdt) < 1e-9 for s in ref[-1:] for q in range(k + 1))
    dts = np.diff([s[0] for s in ref])
    if not k - border <= n <= k:
        r.fail('%d frames of %g s for a simulation of %g s, expected %d' % (n, fdt, ref[-1][0], k))
        return
    strict = max(dts) <= fdt * (1 + 1e-9)
    for q in range(n):
        img = pygame.surfarray.array3d(pygame.image.load(os.path.join(path, '%d.bmp' % q)))
        why = first = None
        for i in sorted(may[q] if strict else range(1, len(ref))):
            p = Picture(case, ref[i][1])
            why = p.judge(img)
            if why is None:
                break
            first = first or (i, why)
        r.events += 1
        r.count('frames')
        if why:
            r.fail('frame %d (state at t=%g): %s' % (q, ref[first[0]][0], first[1]), ppm=case['ppm'])
            return
        r.count('points seen', p.seen)


def display(case, r, got, pics, clock, t_start, adt, mode, w):
    for t, now in clock[1:]:
        r.events += 1
        if t > now - t_start + case['cost'] + 1e-9:
            r.fail('the display is at t=%g after %g s' % (t, now - t_start))
            return
        r.maxi('display ahead', t - (now - t_start))
    last = len(got) - 1
    for k in range(1, last + (mode != 'quit')):
        # the newest state that could be on the screen, and those since the last picture that was due
        why = first = None
        for i in range(k, 0, -1):
            p = Picture(case, got[i][1])
            why = p.judge(pics[k])
            if why is None:
                break
            first = first or why
            # pictures are due every adt of the clock; the state i is older than that
            if i < k and clock[k - 1][1] - clock[i - 1][1] > adt + 3 * case['cost'] + w.dt:
                why = first
                break
            if i == 1:
                why = first
        r.events += 1
        r.count('displays')
        if why:
            r.fail('display after step %d (t=%g): %s' % (k, got[k][0], why), ppm=case['ppm'])
            return
        r.count('points seen', p.seen)


NEED = {'frames': 200, 'displays': 200, 'points seen': 3000, 'states compared': 500, 'runs plain': 10, 'runs quit': 10}


if __name__ == '__main__':
    common.main(sys.modules[__name__])
