"""C24: the learning experiments and demonstrations that come with the library"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import contextlib
import importlib
import io
import random
import re
import numpy as np
import sim
from C17 import compare, points
from geom import rot
from phys import Stop, monitor_engine, npv
from scenes import make_world

ID = 'C24'
RULE = ('the mass inference on chains of one to three links with random masses (positions recorded, losses, gradient of every update, what is '
        'reported), the pushing demonstration from random starts, states recorded along random scenes, and the shipped demonstrations; '
        'losses and their derivatives come from an independently written scene; distinct = situation')
ASSUME = ['shorter simulations than the shipped ones (same code, other durations)', 'plots are recorded instead of shown']
NEED = {'states recorded': 500, 'losses judged': 12, 'gradients of the loss judged': 4, 'updates of the force judged': 15, 'demonstration steps': 200,
        'displayed states recorded': 30}
LIMIT = {'quick': 250, 'thorough': 800}


def gen(rng, tier):
    k = 1 if tier == 'quick' else 12
    out = [{'mode': 'fit', 'links': 1 + i % 3, 'updates': 3, 'T': [2.1, 2.4][i % 2]} for i in range(12 * k)]
    out += [{'mode': 'fit', 'links': 1, 'updates': 2, 'T': 2.1, 'dt': rng.uniform(.05, .12)} for i in range(24 * k)]      # shortened steps
    out += [{'mode': 'goal', 'links': 1 + i % 2, 'T': 2.0} for i in range(2 * k)]
    out += [{'mode': 'push', 'jitter': 0. if i == 0 else 8.} for i in range(8 * k)]
    out += [{'mode': 'demo', 'which': i, 'T': [3., 3., 1., 3., 5.][i] * (1 if tier == 'quick' else 3)} for i in range(5)]
    for c in out:
        c['seed'] = rng.randrange(2 ** 31)
    W = sim.workload(rng, tier, 36 * k, kinds=['collide', 'floor', 'chain', 'mixed', 'free'])
    for i, c in enumerate(W[-36 * k:]):
        out.append({'mode': 'record', 'scene': c['scene'], 'steps': min(c['steps'], 25), 'seed': rng.randrange(2 ** 31), 'display': i % 4 == 0})
    return out


def load(folder, name):
    d = os.path.join(common.REPO, folder)
    if d not in sys.path:
        sys.path.insert(0, d)
    m = importlib.import_module(name)
    if hasattr(m, 'plot'):
        m.plot = None
    return m


class Seen(object):
    """Worlds a module makes, as they were when made."""
    def __init__(self, module, more=None):
        real = importlib.import_module('lcp_physics.physics.world').World
        self.all = seen = []

        class Watched(real):
            def __init__(self, bodies, *a, **kw):
                real.__init__(self, bodies, *a, **kw)
                e = {'world': self, 'p': [npv(b.p).copy() for b in self.bodies], 'm': [float(b.mass) for b in self.bodies],
                     'masses': [b.mass for b in self.bodies], 'dt': float(self.dt)}
                if more:
                    e.update(more(self))
                seen.append(e)
        module.World = Watched


def watch(module, more=None):
    plots = []

    def plot(y, x=None):
        plots.append([float(q.item() if hasattr(q, 'item') else q) for q in y])
    module.plot = plot
    return Seen(module, more), plots


# ---------------------------------------------------------------- inference
def chain(mass, n, dt, T):
    """The experiment, written again: positions at all times."""
    import torch
    from lcp_physics.physics.bodies import Circle, Rect
    from lcp_physics.physics.constraints import Joint
    from lcp_physics.physics.forces import ExternalForce, Gravity
    from lcp_physics.physics.world import World
    B, J = [], []
    for i in range(n):
        b = Rect([300., 50. + 50. * i], [20., 60.], mass=mass / n)
        if i:
            b.add_force(Gravity(g=100))
            b.add_no_contact(B[-1])
            J.append(Joint(b, B[-1], [300., 25. + 50. * i]))
        else:
            J.append(Joint(b, None, [300., 30.]))
        B.append(b)
    c = Circle([50., 50. * n], 20, restitution=1.)
    push = lambda t: torch.tensor([0., 1. if t < .1 else 0., 0.], dtype=torch.double)
    c.add_force(ExternalForce(push, multiplier=1500))
    w = World(B + [c], J, dt=dt, post_stab=True)
    out, sig, pts = [torch.cat([b.p for b in w.bodies])], [], []
    while w.t < T:
        t = w.t
        w.step()
        out.append(torch.cat([b.p for b in w.bodies]))
        sig.append((round(w.t - t, 12), tuple(sorted((min(c[1], c[2]), max(c[1], c[2])) for c in w.contacts))))
        pts += points(w)
    return torch.cat(out), sig, np.array(pts)


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def infer(case, r, rng):
    import torch
    from torch.optim.optimizer import register_optimizer_step_pre_hook as hook
    I = load('experiments', 'inference')
    seen, plots = watch(I)
    n = case['links']
    true = rng.uniform(5, 9) if case['mode'] == 'goal' else rng.uniform(3, 12) if 'dt' not in case else 10 ** rng.uniform(-.7, 1)
    I.NUM_LINKS, I.TOTAL_MASS = n, true
    T = case['T']
    if hasattr(I, 'DT'):
        I.DT = case.get('dt', 1 / 30.)
    if not hasattr(I, '_pos'):
        I._pos, I._run = getattr(I, 'positions_run_world', None), I.run_world
    if I._pos:
        I.positions_run_world = lambda w, *a, **k: I._pos(w, **dict(k, run_time=T))
    I.run_world = lambda w, *a, **k: I._run(w, **dict(k, run_time=.1))
    torch.manual_seed(case['seed'])
    hist = []

    def judge(opt, args, kw):
        ps = [p for g in opt.param_groups for p in g['params']]
        hist.append((sum(float(p.detach().sum()) for p in ps), sum(0. if p.grad is None else float(p.grad.sum()) for p in ps),
                     float(seen.all[-1]['world'].t), list(seen.all[-1]['m'])))
        if len(hist) >= case.get('updates', 10 ** 9) or hist[-1][0] <= 0:
            raise Stop()
    h = hook(judge)
    with quiet() as out:
        try:
            I.main(None)
        except Stop:
            pass
        finally:
            h.remove()
    r.nontrivial = True
    r.key = [case['mode'], n, case['seed']]
    if not hist:
        r.fail('the mass is never updated')
        return
    w0 = seen.all[0]
    if n + 1 != len(w0['m']):
        r.fail('a chain of %d links and a projectile has %d bodies' % (n, len(w0['m'])))
        return
    dt, Tend = w0['dt'], float(w0['world'].t)
    if hist[-1][0] <= 0:
        hist.pop()
    for e, m in [(w0, true)] + [({'m': x[3]}, x[0]) for x in hist]:
        if np.abs(np.array(e['m'][:n]) - m / n).max() > 1e-9 * m:
            r.fail('%d links of total mass %.6g have masses %s' % (n, m, e['m'][:n]))
            return
    end = T if I._pos else 10
    with torch.no_grad():
        want, _, _ = chain(torch.tensor([true], dtype=torch.double), n, dt, end)
    printed = out.getvalue()
    losses = [float(x) for x in re.findall(r'^Loss: (\S+)', printed, re.M)]

    def f(x, grad):
        with torch.set_grad_enabled(grad):
            P, sig, pts = chain(x[0], n, dt, end)
            if not grad and len(P) != len(want):
                r.count('motions of different lengths')
            k = min(len(P), len(want))
            return ((P[:k] - want[:k]) ** 2).mean(), sig, pts
    for i, (m, g, t, _) in enumerate(hist):
        if case['mode'] == 'goal' and i not in (0, 5, len(hist) - 1):
            continue
        x0, dx = [np.array([m])], [np.array([1.])]
        L = float(f([torch.tensor(x0[0])], False)[0])
        if i < len(losses):
            r.count('losses judged')
            r.events += 1
            if abs(losses[i] - L) > 1e-6 * (L + 1e-6):
                r.fail('update %d: the loss at mass %.6g is %.9g, not %.9g' % (i, m, L, losses[i]))
                return
        if m < .05:
            continue
        d = compare(r, f, x0, dx, 'derivative of the loss by the mass')
        if r.violations:
            return
        if d is None:
            continue
        r.count('gradients of the loss judged')
        if abs(g - d) > 2e-3 * abs(d) + 2e-3:
            r.fail('update %d: the loss at mass %.6g has the derivative %.6g by the mass, %.6g is used' % (i, m, d, g))
            return
    if case['mode'] == 'goal':
        M = [x[0] for x in hist]
        r.count('inferences run to the end')
        if not any(np.allclose(p[:len(M)], M[:len(p)], rtol=1e-9, atol=0) and len(p) >= len(M) - 1 for p in plots if p):
            r.fail('the masses tried are not among what is plotted')
        if losses and not any(len(p) >= len(losses) - 1 and np.allclose(p, losses[:len(p)], rtol=1e-9, atol=0) for p in plots if p):
            r.fail('the losses are not among what is plotted')
        last = [float(x) for x in re.findall(r'^Final loss: (\S+)', printed, re.M)]
        mass = [float(x) for x in re.findall(r'^Final mass: (\S+)', printed, re.M)]
        if losses and last and not last[0] < .5 * losses[0]:
            r.fail('the loss goes from %.6g to %.6g only' % (losses[0], last[0]))
        if mass and last:
            L = float(f([torch.tensor([mass[0]], dtype=torch.double)], False)[0])
            if abs(L - last[0]) > 1e-6 * (L + 1e-6):
                r.fail('the final loss is %.9g, reported as %.9g' % (L, last[0]))
            r.maxi('relative error of the inferred mass', abs(mass[0] - true) / true)
            if abs(mass[0] - true) > .5 * true:
                r.fail('the mass %.6g is inferred as %.6g' % (true, mass[0]))


# ---------------------------------------------------------------- pushing
def pushed(start, rads, force, dt, T):
    """Final distance of the second ball from the target, and the events on the way."""
    import torch
    from lcp_physics.physics.bodies import Circle
    from lcp_physics.physics.forces import ExternalForce
    from lcp_physics.physics.world import World
    B = [Circle([float(x) for x in p], a) for p, a in zip(start, rads)]
    zero = torch.zeros(3, dtype=torch.double)
    B[1].add_force(ExternalForce(lambda t: force if t < .1 else zero))
    B[1].add_no_contact(B[0])
    B[2].add_no_contact(B[0])
    w = World(B, [], dt=dt)
    sig, pts = [], []
    while w.t < T:
        t = w.t
        w.step()
        sig.append((round(w.t - t, 12), tuple(sorted((min(c[1], c[2]), max(c[1], c[2])) for c in w.contacts))))
        pts += points(w)
    return (B[2].pos - B[0].pos).norm(), sig, np.array(pts), np.concatenate([npv(b.p) for b in B])


def push(case, r, rng):
    import torch
    G = load('demos', 'grad_demo')
    seen, plots = watch(G, lambda w: {'f': npv(w.bodies[1].apply_forces(0.)).reshape(-1) / 100., 'late': npv(w.bodies[1].apply_forces(.2)).reshape(-1)})
    if not hasattr(G, '_circle'):
        G._circle = G.Circle
    jit = []

    def circle(pos, *a, **k):
        i = len(jit_at)
        jit_at.append(0)
        if case['jitter']:
            if len(jit) <= i % 3:
                jit.append((rng.uniform(-1, 1) * case['jitter'], rng.uniform(-1, 1) * case['jitter']))
            pos = [q + d for q, d in zip(pos, jit[i % 3])]
        return G._circle(pos, *a, **k)
    jit_at = []
    G.Circle = circle
    if case['jitter'] and hasattr(G, 'TIME'):
        G.TIME = rng.choice([4, 5, 7])
    elif hasattr(G, 'TIME'):
        G.TIME = 7
    with quiet() as out:
        G.grad_demo(None)
    r.nontrivial = True
    r.key = [case['seed'], bool(case['jitter'])]
    S = seen.all
    if len(S) < 4 or not plots:
        r.fail('nothing is learned: %d simulations, %d plots' % (len(S), len(plots)))
        return
    hist = plots[-1]
    w0 = S[0]
    T = getattr(G, 'TIME', float(w0['world'].t))
    start, rads = [p[1:] for p in w0['p']], [float(b.rad) for b in w0['world'].bodies]
    F = [e['f'] for e in S]
    if any(abs(e['late']).max() > 0 for e in S):
        r.fail('the pushed ball is still driven after 0.2 s')
        return
    if any(e['world'].t < T for e in S):
        r.fail('a simulation ends after %g of %g s' % (min(e['world'].t for e in S), T))
        return
    if np.abs(F[1] - F[0]).max() > 1e-12:
        r.fail('learning does not start from the force that was shown')
        return
    L = F[1:]        # one for each update, and the learned one

    def f(x, grad):
        with torch.set_grad_enabled(grad):
            return pushed(start, rads, x[0], w0['dt'], T)[:3]
    idx = sorted(set([0, 1, 2, len(hist) // 2, len(hist) - 1]))
    for i in idx:
        if i >= len(hist) or i + 1 >= len(L):
            continue
        with torch.no_grad():
            d, _, _, P = pushed(start, rads, torch.tensor(L[i]), w0['dt'], T)
        r.events += 1
        r.count('final distances judged')
        if abs(float(d) - hist[i]) > 1e-6 * hist[i]:
            r.fail('update %d: force %s brings the ball within %.9g, reported %.9g' % (i, L[i], float(d), hist[i]))
            return
        up = (L[i] - L[i + 1]) / (1e-3 * .9 ** i)
        ok = True
        for k in range(3):
            dx = [np.eye(3)[k]]
            g = compare(r, f, [L[i]], dx, 'derivative of the final distance by the force')
            if r.violations:
                return
            if g is None:
                ok = False
                continue
            if abs(up[k] - g) > 2e-3 * (abs(g) + np.abs(up).max()) + 2e-3 + 1e-9 / .9 ** i:
                r.fail('update %d: the derivative by component %d of the force is %.6g, the force changes by %.6g of the rate' % (i, k, g, up[k]))
                return
        r.count('updates of the force judged', ok)
    # what is shown at the end
    nums = re.findall(r'^(-?\d+\.\d+(?:e-?\d+)?)$', out.getvalue(), re.M) or re.findall(r'(\d+\.\d{4,})\s*$', out.getvalue())
    with torch.no_grad():
        d = float(pushed(start, rads, torch.tensor(F[-1]), w0['dt'], T)[0])
    if nums and abs(float(nums[-1]) - d) > 3e-8 * d:
        r.fail('the learned force brings the ball within %.9g of the target, reported %s' % (d, nums[-1]))
    r.maxi('distance left', d / hist[0])
    if d > hist[0] * 1.01 or (not case['jitter'] and d > .7 * hist[0]):
        r.fail('the distance goes from %.6g to %.6g' % (hist[0], d))


# ---------------------------------------------------------------- recording
def record(case, r, rng):
    import torch
    I = load('experiments', 'inference')
    fn = getattr(I, '_pos', None) or getattr(I, 'positions_run_world', None)
    r.key = [case['seed']]
    if fn is None:
        return
    spec = case['scene']
    random.seed(5)
    a = make_world(spec, engine=monitor_engine([], limit=120))
    random.seed(5)
    b = make_world(spec)
    T = case['steps'] * float(a.dt) * rng.uniform(.5, 1)
    want = [np.concatenate([npv(q.p) for q in a.bodies])]
    n = 0
    try:
        while a.t < T and n < 400:
            a.step()
            n += 1
            want.append(np.concatenate([npv(q.p) for q in a.bodies]))
    except Stop:
        n = 400
    if n >= 400:
        return
    kw = {}
    if case['display']:
        import pygame
        pygame.display.init()
        kw['screen'] = pygame.Surface((80, 60))
        pygame.display.set_mode((80, 60))
        pygame.event.clear()
    with quiet():
        got = fn(b, run_time=T, **kw)
    r.nontrivial = True
    r.events += len(got)
    r.count('displayed states recorded' if case['display'] else 'states recorded', len(got))
    if len(got) != len(want):
        r.fail('%d states recorded of a simulation of %d steps' % (len(got), n))
        return
    for i, (x, y) in enumerate(zip(got, want)):
        e = np.abs(npv(x).reshape(-1) - y).max()
        if not e <= 1e-9 * (1 + np.abs(y).max()):
            r.fail('state %d is recorded with an error of %.3g' % (i, e))
            return
    if abs(b.t - a.t) > 1e-12:
        r.fail('the recorded simulation ends at %.17g instead of %.17g' % (b.t, a.t))


# ---------------------------------------------------------------- demonstrations
def world_point(w, i, x):
    b = w.bodies[i]
    return npv(b.pos) + rot(float(b.p[0])) @ x


def demo(case, r, rng):
    name = ['slide_demo', 'fric_demo', 'chain_demo', 'debug_demo', 'fixed_joint_demo'][case['which']]
    D = load('demos', 'fixed_joint_demo' if name == 'fixed_joint_demo' else 'demo')
    seen, _ = watch(D)
    r.key = [name]
    r.nontrivial = True
    T = case['T']

    def run_world(w, *a, **k):
        anchors = []
        for j in w.joints:
            q = j[0]
            if hasattr(q, 'r2') and q.body2 is not None:
                ik = w.bodies.index(q.body1), w.bodies.index(q.body2)
                anchors.append((ik, [rot(-float(w.bodies[i].p[0])) @ (npv(q.pos) - npv(w.bodies[i].pos)) for i in ik]))
        while w.t < T:
            t = w.t
            w.step()
            r.events += 1
            r.count('demonstration steps')
            p = np.concatenate([npv(b.p) for b in w.bodies])
            v = np.concatenate([npv(b.v) for b in w.bodies])
            if not np.isfinite(p).all() or not np.isfinite(v).all() or not t < w.t <= t + w.dt * (1 + 1e-9):
                r.fail('%s: state at %g s is not finite, or time goes wrong' % (name, w.t))
                return
            deep = max([float(c[0][3]) for c in w.contacts] + [0.])
            if deep > (.5 if w.post_stab else w.tol + 1e-9):
                r.fail('%s: bodies overlap by %.3g at %g s' % (name, deep, w.t))
                return
            for (i, k), (x, y) in anchors:
                gap = np.abs(world_point(w, i, x) - world_point(w, k, y)).max()
                r.maxi('gap of a joint', gap)
                r.count('joints of demonstrations judged')
                if gap > 2.:
                    r.fail('%s: a joint comes apart by %.3g at %g s' % (name, gap, w.t))
                    return
    D.run_world = run_world
    with quiet():
        getattr(D, name)(None)
    if not seen.all:
        r.fail('%s simulates nothing' % name)


def run(case, r):
    rng = random.Random(case['seed'])
    {'fit': infer, 'goal': infer, 'push': push, 'record': record, 'demo': demo}[case['mode']](case, r, rng)


if __name__ == '__main__':
    common.main(sys.modules[__name__])
