"""C20: the breakout environment"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import random
import types
import numpy as np
from geom import Shape, separation
from phys import Stop, monitor_engine, npv

ID = 'C20'
RULE = ('random game states (paddle, ball, any pattern of blocks): drawn into frames of the console and read back, converted to state vectors '
        'and back, built as worlds whose bodies are compared with the state, and played with random actions and paddle speeds; ball, paddle, '
        'blocks and walls judged after every step; distinct = state')
ASSUME = ['the game console is replaced by a renderer of its frames, and the packages gym and mpc (not installed) by empty modules',
          'frames in which ball, paddle and blocks do not touch each other', 'a paddle struck by the ball moves freely and is not judged any more']
NEED = {'frames read': 200, 'blocks read': 500, 'game steps': 1500, 'bounces': 150, 'bounces off blocks': 40, 'bounces off walls': 40,
        'free paddle steps': 500, 'gradients': 50, 'paddle at the stopper': 10, 'bounces off the paddle': 10, 'frames without ball': 10, 'balls leaving the screen': 10}

RED, CYAN, GRAY = (200, 72, 72), (66, 158, 130), (142, 142, 142)
COLORS = (RED, (198, 108, 58), (180, 122, 48), (162, 162, 42), (72, 160, 72), (66, 72, 200))


def gen(rng, tier):
    n = 700 if tier == 'quick' else 12000
    return [{'seed': rng.randrange(2 ** 31), 'mode': ['frame', 'game', 'game'][i % 3]} for i in range(n)]


def modules():
    from common import REPO
    d = os.path.join(REPO, 'experiments', 'breakout')
    if d not in sys.path:
        sys.path.insert(0, d)
    if 'gym' not in sys.modules:
        sys.modules['gym'] = types.ModuleType('gym')
        a, b = types.ModuleType('mpc'), types.ModuleType('mpc.mpc')
        b.GradMethods = b.QuadCost = b.MPC = None
        a.mpc = b
        sys.modules['mpc'], sys.modules['mpc.mpc'] = a, b
    import encoder
    import run_breakout
    return encoder, run_breakout


def rand_blocks(rng, p=.5):
    """Maximal runs (level, left, right) of blocks."""
    out = []
    for lv in range(6):
        if rng.random() < p:
            row = [rng.random() < rng.choice([.2, .5, .9]) for _ in range(18)]
            i = 0
            while i < 18:
                if row[i]:
                    j = i
                    while j < 18 and row[j]:
                        j += 1
                    out.append((lv, 8 + 8 * i, 8 + 8 * j))
                    i = j
                i += 1
    return out


def params(px, blocks, ball):
    """What the game state is in world coordinates."""
    return ([px + 8., 191.], [16., 4.]), [([(a + b) / 2., 60. + 6 * l], [float(b - a), 6.]) for l, a, b in blocks], \
        None if ball is None else ([ball[0] + 1., ball[1] + 2.], 1.)


def close(a, b, tol=1e-12):
    return np.shape(a) == np.shape(b) and (np.size(a) == 0 or np.abs(np.asarray(a, float) - np.asarray(b, float)).max() <= tol * (1 + np.abs(np.asarray(b, float)).max()))


def draw(px, ball, B):
    """The screen of the console."""
    f = np.zeros((210, 160, 3), np.uint8)
    f[17:195, 0:8] = f[17:195, 152:160] = f[17:31, :] = GRAY
    f[189:195, 0:8], f[189:195, 152:160] = CYAN, RED
    for l, a, b in B:
        f[57 + 6 * l:63 + 6 * l, a:b] = COLORS[l]
    f[189:193, px:px + 16] = RED
    if ball:
        f[ball[1]:ball[1] + 4, ball[0]:ball[0] + 2] = RED      # cut off by the end of the screen
    return f


def frame(case, r, rng):
    import torch
    E, R = modules()
    B = rand_blocks(rng)
    px = rng.randint(8, 136) if rng.random() < .85 else rng.choice([8, 136, rng.randint(137, 144)])
    ball = None
    if rng.random() < .85:
        for _ in range(1000):
            ball = (rng.randint(8, 150), rng.choice([rng.randint(31, 209), rng.randint(205, 209)]))
            x, y = ball
            if 54 <= y <= 57 or 189 - 6 < y < 195 and (x < 10 or x > 148 or px - 4 < x < px + 20) or \
                    any(a - 3 < x < b + 1 and 57 + 6 * l - 5 < y < 63 + 6 * l + 1 for l, a, b in B):
                continue
            break
    f = draw(px, ball, B)
    g = f.copy()
    got = E.extract_params(f)
    ref = params(px, B, ball)
    r.events += 1
    r.nontrivial = True
    r.key = [px, ball, B]
    r.count('frames read')
    r.count('frames without ball', ball is None)
    r.count('blocks read', len(B))
    if not np.array_equal(f, g):
        r.fail('reading a frame changed it')
    if not all(close(a, b) for a, b in zip(got[0], ref[0])):
        r.fail('the paddle at %s of size %s is read as %s' % (ref[0][0], ref[0][1], got[0]))
    if len(got[1]) != len(ref[1]) or not all(close(x[0], y[0]) and close(x[1], y[1]) for x, y in zip(got[1], ref[1])):
        r.fail('blocks %s are read as %s' % (ref[1], got[1]))
    if ball is None:
        if not got[2][0][1] > 210:
            r.fail('no ball on the screen, one is read at %s' % (got[2],))
        return
    h = min(4, 210 - ball[1])
    by = ball[1] + h / 2.
    r.count('balls leaving the screen', h < 4)
    rad = min(1., h / 2.)
    if not (close(got[2][0], [ball[0] + 1., by]) and close(got[2][1], rad)):
        r.fail('the ball at %s is read as %s' % (ref[2], got[2]))
    # vectors
    v = R.to_vector(*got)
    flat = list(ref[0][0]) + list(ref[0][1]) + [x for b in ref[1] for x in list(b[0]) + list(b[1])]
    if not B:
        flat += v[4:8].tolist()      # a placeholder out of the way
        if 0 <= v[4] <= 160 and 0 <= v[5] <= 210:
            r.fail('a block is invented at %s' % v[4:8].tolist())
    flat += [ball[0] + 1., by, rad]
    if not close(v.tolist(), flat):
        r.fail('the state vector is %s instead of %s' % (v.tolist(), flat))
        return
    back = R.from_vector(v)
    again = R.to_vector(*back)
    r.count('vectors')
    if not close(again.tolist(), flat) or len(back[1]) != max(len(B), 1):
        r.fail('state vector -> parameters -> state vector gives another vector')


def rect_spec(pos, dims, e=1.):
    return {'t': 'rect', 'pos': [0.] + [float(x) for x in pos], 'dims': [float(x) for x in dims]}


WALLS = [([4., 94.5], [8., 189.]), ([156., 97.5], [8., 195.]), ([80., 15.5], [144., 31.])]
STOPS = [([4., 192.], [8., 6.]), ([164., 192.], [8., 6.])]


def game(case, r, rng):
    import torch
    E, R = modules()
    B = rand_blocks(rng, .4)
    px = rng.randint(8, 136) if rng.random() < .7 else rng.choice([8, 143])
    while True:
        ball = (rng.uniform(9.5, 147.), rng.choice([rng.uniform(97, 175), rng.uniform(36, 170)]))
        if not any(a - 4 < ball[0] + 1 < b + 4 and 57 + 6 * l - 4 < ball[1] + 2 < 63 + 6 * l + 4 for l, a, b in B):
            break
    vel = [rng.choice([-1, 1]) * rng.uniform(.3, 3), rng.choice([-1, 1]) * rng.uniform(.5, 4)]
    plan = rng.choice(['random', 'hold', 'aim'])
    a = rng.choice([-1., 1., 0.]) if plan != 'aim' else 0.
    if plan == 'aim':       # a ball falling onto a resting paddle
        px = rng.randint(30, 110)
        ball = (px + rng.uniform(2, 12), rng.uniform(150, 180))
        vel = [rng.uniform(-.5, .5), rng.uniform(.5, 4)]
    pp, bp, ba = params(px, B, ball)
    if px == 143:
        pp = ([px + 8.5, 191.], [16., 4.])
    if rng.random() < .5:
        tens = lambda q: [torch.tensor(x, dtype=torch.double) for x in q]
        args = (tens(pp), [tens(b) for b in bp], tens(ba), torch.tensor(vel, dtype=torch.double))
    else:
        args = (pp, bp, ba, vel)
    w, bb, pb, bl, pi = E.make_world(*args)
    r.key = [case['seed']]
    # the world is what the parameters describe
    want = [('ball', bb, list(ba[0]))] + [('paddle', pb, list(pp[0]))] + [('block', b, list(q[0])) for b, q in zip(bl, bp)]
    for name, b, pos in want:
        if not close(npv(b.pos), pos) or abs(float(b.p[0])) > 0:
            r.fail('the %s is placed at %s instead of %s' % (name, npv(b.p), pos))
            return
    if w.bodies[pi] is not pb or len(bl) != len(bp) or abs(float(bb.rad) - 1) > 0 or not close(npv(bb.v), [0.] + vel) or \
            not close(npv(pb.dims), [16., 4.]) or not all(close(npv(b.dims), q[1]) for b, q in zip(bl, bp)):
        r.fail('sizes, velocity or number of bodies are not those of the state')
        return
    for (l, _, _), b in zip(B, bl):
        r.count('colours of blocks')
        if tuple(b.col) != COLORS[l]:
            r.fail('a block of row %d has the colour %s instead of %s' % (l, tuple(b.col), COLORS[l]))
            return
    solid = []
    for k, (pos, dims) in enumerate(WALLS + STOPS):
        m = [b for b in w.bodies if b is not pb and b not in bl and hasattr(b, 'dims') and close(npv(b.pos), pos) and close(npv(b.dims), dims)]
        if len(m) != 1:
            r.fail('%d bodies where the wall or stopper at %s should be' % (len(m), pos))
            return
        solid.append(m[0])
    if len(w.bodies) != 2 + len(solid) + len(bl):
        r.fail('%d bodies too many' % (len(w.bodies) - 2 - len(solid) - len(bl)))
        return
    shapes = [Shape(rect_spec(*q)) for q in WALLS + bp]
    poses = [np.array([0.] + list(q[0])) for q in WALLS + bp]
    SB = Shape({'t': 'circle', 'pos': [0., 0., 0.], 'rad': 1.})
    SP = Shape(rect_spec([0, 0], [16, 4]))
    STS, STP = [Shape(rect_spec(*q)) for q in STOPS], [np.array([0.] + list(q[0])) for q in STOPS]
    fixed = solid + list(bl)
    P0 = [npv(b.p) for b in fixed]
    vx, vy = rng.choice([3.74, rng.uniform(-5, 5)]), rng.choice([0., 0., rng.uniform(-.3, .3)])
    free = True
    sp0 = float(np.hypot(*vel))
    x = np.array(ba[0])
    log = []
    py = np.array(pp[0], float)
    w.engine = monitor_engine(log, limit=400)()
    for k in range(40):
        if plan == 'random' or plan == 'hold' and rng.random() < .05:
            a = rng.choice([-1., 0., 1., rng.uniform(-1, 1)])
        v0 = npv(bb.v)
        t0 = float(w.t)
        try:
            E.step_breakout(w, pi, a, vx, vy)
        except Stop:
            r.count('ended: too many attempts')
            return
        r.events += 1
        r.nontrivial = True
        r.count('game steps')
        if abs(float(w.t) - t0 - 1.) > 1e-9:
            r.fail('a game step takes %.9g' % (float(w.t) - t0))
        y, v = npv(bb.pos), npv(bb.v)
        for b, p in zip(fixed, P0):
            if not np.abs(npv(b.p) - p).max() < 1e-6:
                r.fail('a wall, stopper or block moved by %.3g' % np.abs(npv(b.p) - p).max())
                return
        Q = npv(pb.p)
        hit = min(separation(SB, np.array([0., *q]), SP, np.array([0., *c])) for q in (x, y) for c in (py, Q[1:])) < \
            .11 + np.abs(v0[1:]).max() + abs(vx) + abs(vy)
        turned = np.abs(v - v0).max() > 1e-6
        if hit and not (plan == 'aim' and not turned):
            if plan != 'aim':
                return
            q = npv(pb.v)
            r.count('bounces off the paddle', bool(y[1] < 190))
            e = (v[1] ** 2 + v[2] ** 2 + v[0] ** 2 * .5 + q[1] ** 2 + q[2] ** 2 + q[0] ** 2 * (16 ** 2 + 4 ** 2) / 12.) / sp0 ** 2
            if abs(e - 1) > 1e-6:
                r.fail('step %d: the bounce off a resting paddle changes the energy by a factor %.5g' % (k, e))
            m = (v[1:] + q[1:] - v0[1:]) / sp0
            if np.abs(m).max() > 1e-6:
                r.fail('step %d: the bounce off a resting paddle changes the momentum by %s' % (k, m.tolist()))
            sep = separation(SB, np.array([0., *y]), SP, Q)
            if sep < -1e-5:
                r.fail('step %d: the ball is %.3g inside the paddle' % (k, -sep))
            return
        r.count('free paddle steps')
        want = py + np.array([a * vx, a * vy])
        # stoppers: left one ends at 8, right one begins at 160
        if want[0] - 8. < 8.2 or want[0] + 8 > 159.8:
            r.count('paddle at the stopper')
            d = min(separation(SP, Q, s, p) for s, p in zip(STS, STP))
            if d < -1e-5:
                r.fail('step %d: the paddle is %.3g inside the stopper' % (k, -d))
                return
            if abs(Q[0]) > 1e-9 or abs(a * vy) > 0:
                return                  # turned by the stopper
        elif not close(Q[1:], want, 1e-9) or abs(Q[0]) > 1e-9:
            r.fail('step %d: the paddle is at %s instead of %s' % (k, Q.tolist(), want.tolist()))
            return
        py = Q[1:]
        pen = [-separation(SB, np.array([0., *y]), s, p) for s, p in zip(shapes, poses)]
        if max(pen) > 1e-5:
            r.fail('step %d: the ball is %.3g inside a wall or block' % (k, max(pen)))
            return
        sp = float(np.hypot(*v[1:]))
        if abs(sp - sp0) > 1e-6 * sp0 or abs(v[0]) > 1e-6:
            r.fail('step %d: the ball changed its speed from %.6g to %.6g (spin %.2g)' % (k, sp0, sp, v[0]))
            return
        if np.abs(v - v0).max() > 1e-3:
            r.count('bounces')
            # something must be there
            near = [min(separation(SB, np.array([0., *q]), s, p) for q in (x, y)) - 2 * sp0 for s, p in zip(shapes, poses)]
            if min(near) > .11:
                r.fail('step %d: the ball turns in free space' % k)
                return
            j = int(np.argmin([min(separation(SB, np.array([0., *q]), s, p) for q in (x, y)) for s, p in zip(shapes, poses)]))
            r.count('bounces off ' + ('walls' if j < 3 else 'blocks'))
        elif not close(y, x + v0[1:], 1e-6):
            r.fail('step %d: the ball flies from %s to %s with velocity %s' % (k, x.tolist(), y.tolist(), v0[1:].tolist()))
            return
        x = y
        if y[1] > 215:
            return


def gradients(case, r, rng):
    """State after one step by the speed of the paddle."""
    import torch
    E, R = modules()
    B = rand_blocks(rng, .3) or [(2, 16, 80)]
    pp, bp, ba = params(rng.randint(30, 110), B, (rng.uniform(20, 140), rng.uniform(110, 150)))
    w, bb, pb, bl, pi = E.make_world(pp, bp, ba, [rng.uniform(-2, 2), rng.uniform(-2, 2)])
    vx, vy = [torch.tensor(rng.uniform(-4, 4), dtype=torch.double, requires_grad=True) for _ in range(2)]
    v0 = npv(bb.v)
    tot = 0.
    n = rng.choice([1, 1, 2, 4])
    v = [vx.item(), vy.item()]
    for k in range(1, n + 1):
        a = rng.choice([-1., 1., rng.uniform(-1, 1)])
        tot += a
        s = R.simulate_breakout(a, w, bb, pb, bl, pi, paddle_vel_x=vx, paddle_vel_y=vy)[0]
        r.events += 1
        r.count('gradients')
        where = [pp[0][0] + tot * v[0], pp[0][1] + tot * v[1]]
        if not 17 < where[0] < 151 or not 17 < ba[0][0] + k * v0[1] < 143:
            return
        want = where + list(pp[1]) + [x for b in bp for x in list(b[0]) + list(b[1])] + [ba[0][0] + k * v0[1], ba[0][1] + k * v0[2], 1.]
        if not close(s.tolist(), want, 1e-9):
            r.fail('the state after %d steps without contacts is %s instead of %s' % (k, s.tolist(), want))
            return
        for i, q in ((0, vx), (1, vy)):
            g = torch.autograd.grad(s[i], q, retain_graph=True)[0].item()
            if abs(g - tot) > 1e-9 * k:
                r.fail('derivative of the paddle position after %d steps by its speed is %.9g instead of %.9g' % (k, g, tot))
                return
    # the button for a control
    t = rng.choice([.9, .99, .5])
    a = rng.choice([-1., 1., rng.uniform(-1, 1)])
    want = 0 if abs(a) < t else 3 if a > 0 else 2
    if R.get_action([a], threshold=t) != want:
        r.fail('button %s for control %s at threshold %s' % (R.get_action([a], threshold=t), a, t))


def run(case, r):
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    if case['mode'] == 'frame':
        frame(case, r, rng)
        gradients(case, r, rng)
    else:
        game(case, r, rng)


if __name__ == '__main__':
    common.main(sys.modules[__name__])
