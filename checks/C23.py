"""C23: the breakout agent -- planning, playing and learning"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import contextlib
import io
import random
import sys
import numpy as np
from C20 import modules, rand_blocks, params, draw, close
from phys import Stop

ID = 'C23'
RULE = ('the agent plans for random game states (the optimal-control problem it poses is recorded and judged, its model of the game is called on '
        'random states and controls), plays whole episodes of a small breakout console and learns the speed of the paddle from its frames; '
        'every button, reward, lost ball and gradient is judged; distinct = state or episode')
ASSUME = ['the packages gym and mpc are not installed: the console is a small game drawn into real frames, the solver of the optimal-control '
          'problem a stand-in which records it and answers with the best first control of the linearised problem',
          'the buttons of the console: 1 serves, 2 and 3 move the paddle right and left']
NEED = {'plans': 80, 'plans for a falling ball': 40, 'predictions': 80, 'games': 10, 'buttons': 500, 'moves towards the ball': 50,
        'waits for a rising ball': 30, 'balls lost': 3, 'controls turned into buttons': 1000, 'gradients of the loss': 100, 'speeds learned': 4}
LIMIT = {'quick': 200, 'thorough': 600}


def gen(rng, tier):
    n = 1 if tier == 'quick' else 12
    out = [{'mode': 'learn', 'n': 250, 'goal': 1} for _ in range(10 * n)] + [{'mode': 'play'} for _ in range(48 * n)] + \
        [{'mode': 'learn', 'n': 8} for _ in range(10 * n)] + [{'mode': 'plan'} for _ in range(160 * n)]
    for c in out:
        c['seed'] = rng.randrange(2 ** 31)
    return out


class Problem(object):
    """What the agent asks its solver for."""


def solver(seen, answer):
    class MPC(object):
        def __init__(self, n_state, n_ctrl, T, **kw):
            self.p = Problem()
            self.p.ns, self.p.na, self.p.T, self.p.kw = n_state, n_ctrl, T, kw

        def __call__(self, x_init, cost, dynamics):
            import torch
            p = self.p
            p.x, (p.Q, p.p), p.dyn = x_init, cost, dynamics
            p.u = answer(p)
            seen.append(p)
            u = torch.as_tensor(p.u, dtype=torch.double).reshape(p.T, 1, p.na)
            x = [x_init]
            return torch.stack(x), u, torch.zeros(1)
    return MPC


class Grads(object):
    def __getattr__(self, n):
        return n


def fit(R, MPC):
    R.MPC, R.QuadCost, R.GradMethods = MPC, lambda Q, p: (Q, p), Grads()


def num(t):
    return np.asarray(t.detach().numpy() if hasattr(t, 'detach') else t, float)


def planes(p):
    Q, c = num(p.Q), num(p.p)
    n = p.ns + p.na
    return Q.reshape(p.T, n, n), c.reshape(p.T, n)


def plan(case, r, rng):
    import torch
    E, R = modules()
    B = rand_blocks(rng, .3)
    fall = rng.random() < .65
    px = rng.randint(24, 120)
    ball = (rng.randint(30, 120), rng.randint(100, 178))
    v = [float(rng.randint(-3, 3)), rng.choice([1, 1, 2, 3, rng.uniform(.3, 4)]) * (1. if fall else -1.)]
    s = R.to_vector(*params(px, B, ball))
    keep = s.clone()
    T = rng.choice([2, 2, 3, 5, 10, 25])
    a0 = np.array([[rng.uniform(-1, 1)] for _ in range(T)])
    lam = rng.choice([1e-20, 1e-3, .5])
    pv = [rng.choice([-1, 1]) * rng.uniform(.5, 5), rng.choice([0., 0., rng.uniform(-.2, .2)])]
    seen = []
    ans = [[rng.uniform(-1, 1)] for _ in range(T)]
    fit(R, solver(seen, lambda p: np.array(ans)))
    ball_vel = torch.tensor(v, dtype=torch.double)
    out = R.mpc(s, a0, T, ball_vel=ball_vel, lambda_a=lam, paddle_vel=pv, centering=rng.random() < .5, verbose=-1)
    if len(seen) != 1:
        r.fail('%d problems are posed for one plan' % len(seen))
        return
    p = seen[0]
    r.events += 1
    r.nontrivial = True
    r.key = [px, ball, v, T]
    r.count('plans')
    r.count('plans for a falling ball', fall)
    if not close(num(out).reshape(-1), np.array(ans).reshape(-1)):
        r.fail('the plan %s of the solver is returned as %s' % (ans, num(out).tolist()))
    if p.T != T or p.ns != len(s) or p.na != 1:
        r.fail('a problem of %d steps with states of %d numbers and %d controls is posed' % (p.T, p.ns, p.na))
        return
    lo, hi = num(p.kw.get('u_lower', np.nan)), num(p.kw.get('u_upper', np.nan))
    if not (np.all(lo == -1.) and np.all(hi == 1.)):
        r.fail('the controls are bounded by %s and %s' % (lo, hi))
    if not close(num(p.x).reshape(-1), num(keep)) or not close(num(s), num(keep)):
        r.fail('the plan does not start in the state which was given')
    if p.kw.get('u_init') is None or not close(num(p.kw['u_init']).reshape(-1), a0.reshape(-1)):
        r.fail('the plan does not start from the controls which were given')
    # the cost
    Q, c = planes(p)
    if np.abs(c).max() > 0:
        r.fail('the cost has a linear part')
    arrive = (191. - (ball[1] + 2.)) / v[1] if fall else -9.
    for t in range(T):
        if abs(Q[t, -1, -1] - lam) > 1e-6 * lam:
            r.fail('step %d: the weight of the control is %.6g instead of %.6g' % (t, Q[t, -1, -1], lam))
            return
        for _ in range(3):
            x = np.array(num(s).tolist() + [0.])
            x[:-1] += np.array([rng.gauss(0, 10) for _ in x[:-1]])
            q = .5 * x.dot((Q[t] + Q[t].T) / 2).dot(x)
            d = .5 * (x[0] - x[-4]) ** 2
            if fall and t <= arrive + .99:
                if abs(q - d) > 1e-9 * (1 + d):
                    r.fail('step %d of a ball which arrives after %.3g steps: the cost of being %.4g away is %.6g instead of %.6g' %
                           (t, arrive, x[0] - x[-4], q, d))
                    return
            elif (not fall or t > arrive + 2) and abs(q) > 1e-9:
                r.fail('step %d, the ball %s: a cost of %.4g' % (t, 'has arrived' if fall else 'rises', q))
                return
    # the model
    for _ in range(2):
        u = torch.tensor([[rng.uniform(-1, 1)]], dtype=torch.double, requires_grad=True)
        x1, y1, x0 = px + 8 + float(u) * pv[0], 191 + float(u) * pv[1], keep.clone()
        nx = p.dyn(x0.unsqueeze(0), u)
        g = nx.reshape(-1)
        bx, by = ball[0] + 1 + v[0], ball[1] + 2 + v[1]
        if not 12 < bx < 148 or not by < 186 or by < 97:
            continue
        r.count('predictions')
        want = num(keep).copy()
        want[0], want[1], want[-3], want[-2] = x1, y1, bx, by
        if not close(num(g), want, 1e-9):
            r.fail('the model takes the state %s to %s instead of %s' % (num(keep).tolist(), num(g).tolist(), want.tolist()))
            return
        du = torch.autograd.grad(g[0], u, retain_graph=True)[0].item()
        if abs(du - pv[0]) > 1e-9 * (1 + abs(pv[0])):
            r.fail('in the model the paddle moves by %.6g per unit of control instead of %.6g' % (du, pv[0]))
            return


class Space(object):
    def __init__(self, n):
        self.n = n

    def sample(self):
        return 0


class Console(object):
    """A small game of breakout."""
    action_space = Space(4)

    def __init__(self, rng, k, lives=5, moves=None, blocks=(), deaf=0, frames=80):
        self.rng, self.k, self.B, self.deaf, self.frames = rng, k, list(blocks), deaf, frames
        self.log, self.scores = [], []
        self.nlives = lives
        self.on_reset = None
        self.start = None

    def reset(self):
        if self.on_reset:
            self.on_reset()
        self.px = self.start if self.start is not None else self.rng.randint(30, 110)
        self.ball = None
        self.lives = self.nlives
        self.fires = self.n = 0
        self.scores.append(0.)
        self.log.append(('reset',))
        return draw(self.px, self.ball, self.B)

    def serve(self):
        self.ball = [self.rng.randint(20, 136), self.rng.randint(100, 130)]
        self.vel = [self.rng.choice([-2, -1, 0, 1, 2]), self.rng.choice([-2, 2, 3, 1])]
        if self.rng.random() < .25:
            self.vel = [self.rng.choice([-6, -5, -3, 3, 5, 6]), self.rng.choice([-5, 2, 4, 5, 6])]

    def step(self, a):
        before = self.state()
        self.n += 1
        if a == 1 and self.ball is None:
            self.fires += 1
            if self.fires > self.deaf:
                self.serve()
                self.fires = 0
        elif a in (2, 3):
            self.px = min(136, max(8, self.px + (self.k if a == 2 else -self.k)))
        lost = False
        if self.ball is not None:
            x, y = self.ball[0] + self.vel[0], self.ball[1] + self.vel[1]
            if not 10 <= x <= 146:
                self.vel[0] *= -1
                x = self.ball[0] + self.vel[0]
            if y < 98:
                self.vel[1] *= -1
                y = self.ball[1] + self.vel[1]
            if y > 183:
                if self.px - 2 < x < self.px + 16 and self.rng.random() < .6:
                    self.vel[1] *= -1
                    y = self.ball[1] + self.vel[1]
                else:
                    lost = True
            self.ball = None if lost else [x, y]
        if lost:
            self.lives -= 1
        stop = self.lives == 0 or self.n >= self.frames and a != 1
        rew = 0. if stop or a == 1 or self.ball is None else float(self.rng.choice([0, 0, 0, 1, 4, 7]))
        self.scores[-1] += rew
        self.log.append(('step', a, before, self.state(), lost, stop))
        return draw(self.px, self.ball, self.B), rew, stop, {'ale.lives': self.lives}

    def state(self):
        return self.px, None if self.ball is None else tuple(self.ball)

    def render(self, *a, **k):
        pass

    def seed(self, *a):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def console(env):
    """gym.make gives this console."""
    gym = sys.modules['gym']
    old = getattr(gym, 'make', None)
    gym.make = lambda *a, **k: env
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        gym.make = old


def answer(p):
    """The best controls of the problem, one after the other, by its own cost and model."""
    import torch
    Q, _ = planes(p)
    n = p.ns
    u = np.zeros((p.T, p.na))
    x = p.x.detach()
    for t in range(min(p.T - 1, 2)):
        a = torch.zeros(1, p.na, dtype=torch.double, requires_grad=True)
        y = p.dyn(x, a).reshape(-1)
        J = np.zeros(n)
        for i in (0, n - 3):
            if y[i].requires_grad:
                J[i] = torch.autograd.grad(y[i], a, retain_graph=True)[0].item()
        q = Q[t + 1][:n, :n]
        h = J.dot(q).dot(J) + Q[t][-1, -1]
        g = J.dot(q).dot(num(y))
        u[t] = 0. if h == 0 else min(1., max(-1., -g / h))
        x = y.detach().unsqueeze(0)
        if t == 0 and p.T <= 2:
            break
    return u


def play(case, r, rng):
    E, R = modules()
    np.random.seed(case['seed'] % 2 ** 32)
    seen = []
    thr = rng.choice([.99, .9, .5])
    whim = rng.random() < .25

    def caprice(p):
        return np.array([[rng.choice([-1, 1]) * rng.choice([thr * .999, thr * 1.001, thr - .04, rng.uniform(0, 1), 1., 0.])] for _ in range(p.T)])
    fit(R, solver(seen, caprice if whim else answer))
    k = rng.choice([3, 4])
    episodes = rng.choice([1, 1, 2, 3])
    env = Console(rng, k, lives=5, blocks=rand_blocks(rng, .1), frames=rng.randint(40, 70), deaf=rng.choice([0, 0, 1, 2]))
    T = rng.choice([2, 2, 3])
    with console(env):
        avg = R.run_breakout(T=T, threshold=thr, paddle_vel=[float(k), 0.], centering=rng.random() < .5, render=False,
                             num_episodes=episodes, verbose=0)
    r.nontrivial = True
    r.key = [case['seed']]
    scores = [s for i, s in enumerate(env.scores) if any(e[0] == 'step' for e in part(env.log, i))]
    r.count('games', len(scores))
    if len(scores) != episodes:
        r.fail('%d episodes played instead of %d' % (len(scores), episodes))
        return
    if abs(avg - sum(scores) / episodes) > 1e-9:
        r.fail('the scores %s are reported as %.6g on average' % (scores, avg))
    # every plan becomes a button
    pressed = [e[1] for e in env.log if e[0] == 'step' and e[1] != 1]
    want = [0 if abs(u) < thr else 3 if u > 0 else 2 for u in (float(np.reshape(p.u, -1)[0]) for p in seen)]
    r.count('controls turned into buttons', len(want))
    if pressed != want:
        j = next((j for j, (x, y) in enumerate(zip(pressed, want)) if x != y), min(len(pressed), len(want)))
        r.fail('%d plans and %d buttons; the plan %s becomes button %s at threshold %g' % (
            len(want), len(pressed), np.reshape(seen[j].u, -1)[0] if j < len(want) else None, pressed[j] if j < len(pressed) else None, thr))
        return
    if whim:
        return
    for i in range(len(env.scores)):
        ep = [e for e in part(env.log, i) if e[0] == 'step']
        hist, waiting = [], 0
        for j, (_, a, b, c, lost, stop) in enumerate(ep):
            if a not in (0, 1, 2, 3):
                r.fail('button %r' % (a,))
                return
            r.events += 1
            r.count('buttons')
            if j and ep[j - 1][5]:
                r.fail('a button after the end of the episode')
                return
            px, ball = b
            hist.append(b)
            if ball is None:
                waiting += 1
                if waiting > 3 + env.deaf and j > 5 + env.deaf:
                    r.fail('no new ball is served %d steps after one was lost' % waiting)
                    return
                continue
            waiting = 0
            r.count('balls lost', lost)
            # judged when the ball was seen in three frames and the agent plays, not serves
            if len(hist) < 3 or any(h[1] is None for h in hist[-3:]) or any(e[1] == 1 for e in ep[max(0, j - 2):j + 1]) or j < 6:
                if a == 1 and len(hist) > 12 and not any(h[1] is None for h in hist[-12:]):
                    r.fail('a ball is in play, and the agent serves')
                    return
                continue
            v = np.subtract(hist[-1][1], hist[-2][1])
            if not 24 < px < 120 or not 14 < ball[0] + v[0] < 142 or not 100 < ball[1] + v[1] < 181:
                continue
            if v[1] < 0:
                r.count('waits for a rising ball')
                if a != 0:
                    r.fail('button %d while the ball rises' % a)
                    return
            elif v[1] > 0:
                d = ball[0] + 1 + v[0] - (px + 8)
                if abs(d) > k * 1.02:
                    r.count('moves towards the ball')
                    if a != (2 if d > 0 else 3):
                        r.fail('button %d (paddle at %g, falling ball at %g moving by %g per frame)' % (a, px + 8, ball[0] + 1, v[0]))
                        return
                elif abs(d) < k * thr * .98:
                    r.count('stays below the ball')
                    if a != 0 and abs(d) < k * thr - .05:
                        r.fail('button %d, the ball is only %.3g away' % (a, d))
                        return


def part(log, i):
    k = -1
    out = []
    for e in log:
        if e[0] == 'reset':
            k += 1
        elif k == i:
            out.append(e)
    return out


def learn(case, r, rng):
    import torch
    from torch.optim.optimizer import register_optimizer_step_pre_hook as hook
    E, R = modules()
    import learn_params as L
    np.random.seed(case['seed'] % 2 ** 32)
    torch.manual_seed(case['seed'])
    k = rng.choice([1, 2])
    ball = [rng.randint(20, 130), rng.randint(100, 140)]
    B = [(0, 8, 152)] if rng.random() < .5 else [(rng.randint(0, 5), 8 * rng.randint(1, 9), 152 - 8 * rng.randint(0, 8))]
    env = Console(rng, k, blocks=B, frames=10 ** 9)
    env.start = rng.randint(50, 94)
    env.serve = lambda: None
    hist = []

    def reset():
        if len(hist) >= case['n']:
            raise Stop()
        if case.get('goal') and len(hist) >= 30 and np.abs(np.mean(hist[-10:]) + k) < .1:
            raise Stop()
    env.on_reset = reset
    real = Console.reset

    def start():
        real(env)
        env.ball, env.vel = list(ball), [0, 0]
        return draw(env.px, env.ball, env.B)
    env.reset = start
    r.nontrivial = True
    r.key = [case['seed']]

    def judge(opt, args, kw):
        ps = [p for g in opt.param_groups for p in g['params']]
        v = [float(p.detach().reshape(-1)[0]) for p in ps]
        g = [0. if p.grad is None else float(p.grad.reshape(-1)[0]) for p in ps]
        hist.append(v[0])
        r.events += 1
        ep = [e for e in part(env.log, len(env.scores) - 1)]
        X = [env.start + 8.] + [e[3][0] + 8. for e in ep]
        A = [0.] + list(np.cumsum([{2: -1., 3: 1., 0: 0.}[e[1]] for e in ep]))
        if not ep or any(e[1] not in (2, 3) for e in ep):
            r.fail('the moves tried are %s' % [e[1] for e in ep])
            return
        n = 4. * len(X)
        mx = [env.start + 8. + v[0] * a for a in A]
        my = [191. + v[1] * a for a in A]
        if min(mx + X) < 18 or max(mx + X) > 150 or min(my) < 150:
            return
        want = [2 / n * sum((m - x) * a for m, x, a in zip(mx, X, A)), 2 / n * sum((m - 191.) * a for m, a in zip(my, A))]
        r.count('gradients of the loss')
        if any(abs(x - y) > 1e-8 * (1 + abs(y)) for x, y in zip(g, want)) or len(g) != 2:
            r.fail('iteration %d, speeds %s: the gradient is %s instead of %s (moves %s, paddle seen at %s)' % (len(hist), v, g, want, A, X))
    h = hook(judge)
    out = None
    try:
        with console(env):
            out = L.infer_params()
    except Stop:
        pass
    finally:
        h.remove()
    if not hist:
        r.fail('nothing is learned')
    elif case.get('goal') and not r.violations:
        if out is not None:
            w = [float(num(q).reshape(-1)[0]) for q in out]
            r.count('speeds returned')
            if len(w) != 2 or abs(w[0] + k) > .4 or abs(w[1]) > .4:
                r.fail('the speed %s is returned, the paddle moves by %d' % (w, -k))
        m = float(np.mean(hist[-10:]))
        r.count('speeds learned', abs(m + k) < .25)
        r.maxi('error of a learned speed', abs(m + k))
        if abs(m + k) > .4:
            r.fail('after %d iterations the speed is %.4g, the paddle moves by %d' % (len(hist), m, -k))


def run(case, r):
    rng = random.Random(case['seed'])
    {'plan': plan, 'play': play, 'learn': learn}[case['mode']](case, r, rng)


if __name__ == '__main__':
    common.main(sys.modules[__name__])
