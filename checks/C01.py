"""C01: the LCP solver returns a solution of the LCP."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
import numpy as np
import lcporacle as O
import lcpcheck as L

ID = 'C01'
RULE = ('random mixed LCPs (six families of Q/F, 1-14 variables, 1-18 inequalities, 0-3 equalities, batches of 1-5, '
        'several iteration settings) solved by the real solver and compared with a certified Lemke solution (frictional: '
        'with the contact law, as the solution need not be unique); distinct = family, sizes, batch and number of active '
        'constraints; non-trivial when some constraint is active')
ASSUME = ['Q positive definite, the problem solvable (certified by the reference solver before use)',
          'instances on which an independent implementation of the textbook predictor-corrector iteration cycles as well '
          'are the known finding; other isolated misses count as violations when the solver also misses most problems '
          'with the same matrices, and their rate is bounded per family']
TOL = 1e-6
STALL_MAX = 0.02


def buckets(spec):
    return [spec['kind'], 'neq=%d' % spec['neq'], 'batched' if spec['nb'] > 1 else 'single',
            'small' if spec['nz'] < 7 else 'large', spec.get('neat') or 'random']


def stall(r, spec):
    r.count('stalls')
    for b in buckets(spec):
        r.count('stalls ' + b)


# problems on which the iteration is known to cycle (KNOWN-FINDINGS.json)
CYCLES = [{'seed': 1147980139, 'kind': 'diag', 'nz': 2, 'm': 18, 'neq': 1, 'nb': 1, 'lim': 3, 'mi': 100},
          {'seed': 1216294332, 'kind': 'scaled', 'nz': 3, 'm': 6, 'neq': 2, 'nb': 5, 'lim': 10, 'mi': 100}]


def gen(rng, tier):
    n = 2400 if tier == 'quick' else 60000
    out = CYCLES + [L.gen_spec(rng) for _ in range(n)]
    for _ in range(n // 4):
        out.append(dict(L.gen_spec(rng), neat=rng.choice(['zerorow', 'box', 'dup', 'ints'])))
    return out


def run(spec, r):
    insts, rs = L.draw(spec['seed'], spec['kind'], spec['nz'], spec['m'], spec['neq'], spec['nb'], spec.get('neat'))
    if insts is None:
        raise common.Skip('no solvable instance')
    x = L.run_solver([i for i, _ in insts], spec['lim'], spec['mi']).detach().numpy()
    r.key = [spec['kind'], spec['nz'], len(insts[0][1][1]), spec['neq'], spec['nb'],
             [int((s[1] > 1e-9).sum()) for _, s in insts]]
    for k, (inst, sol) in enumerate(insts):
        r.events += 1
        for b in buckets(spec):
            r.count('answers ' + b)
        if (sol[1] > 1e-9).any():
            r.nontrivial = True
            r.count('with active constraints')
        e = L.answer_error(inst, sol, x[k])
        if e <= TOL:
            r.maxi('relative error', e)
            continue
        cycles = lambda q, sq: L.answer_error(q, sq, O.mehrotra(**{k2: q[k2] for k2 in 'QpGhAbF'})) > TOL
        if cycles(inst, sol):
            # known finding: the textbook iteration cycles on this problem
            r.fail('the iteration cycles without reaching the solution', **{'class': 'predictor-corrector-cycle'})
            stall(r, spec)
            continue
        if L.answer_error(inst, sol, L.run_solver([inst], 50, 100).detach().numpy()[0]) <= TOL:
            r.count('gave up early')
            stall(r, spec)
            continue
        # stalled or wrong?  Ask again with the same matrices and another linear term.
        bad = n = 0
        for _ in range(40):
            if n == 8:
                break
            q = L.relatives(inst, rs)
            s2 = O.solvable({k2: q[k2] for k2 in 'QpGhAbF'})
            if s2 is None or cycles(q, s2):
                continue
            n += 1
            y = L.run_solver([q], 50, 100).detach().numpy()[0]
            bad += L.answer_error(q, s2, y) > TOL
        if bad >= 4:
            r.fail('wrong LCP solution: relative error %.3g, and on %d of %d problems with the same matrices' % (e, bad, n),
                   kind=spec['kind'], index=k, x=x[k], expected=sol[0])
        else:
            stall(r, spec)


def aggregate(specs, results, counters):
    out = []
    for k, n in counters.items():
        if not k.startswith('answers '):
            continue
        s = counters.get('stalls ' + k[8:], 0)
        if s > 3 + STALL_MAX * n:
            i = next(i for i, d in enumerate(results) if d and d['counters'].get('stalls ' + k[8:]))
            out.append((i, 'the solver misses the solution of %d of %d problems (%s)' % (s, n, k[8:])))
    return out


NEED = {'with active constraints': 100}

if __name__ == '__main__':
    common.main(sys.modules[__name__])
