""" Built-in kill conditions. """
import datetime
import math
import random
from fractions import Fraction

import numpy as np

import engine as E
from verdict import need
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.hunters import (BestUnmoving, EvaluationsUnmoving, LastPointsInvalid, MinFuncCalls, ParameterDistance, StepSize,
                            TimeAnnealing, TypeHunter, ValueAnnealing)
from glompo.optimizers.baseoptimizer import BaseOptimizer

MAYBE = 'maybe'


class Quick(BaseOptimizer):
    def minimize(self, *a, **k):
        pass

    def callstop(self, *a):
        pass


class Slow(Quick):
    pass


class Quicker(Quick):
    pass


TYPES = {c.__name__: c for c in (Quick, Slow, Quicker)}


def finite(v):
    return not (math.isnan(v) or math.isinf(v))


def root(q):
    """ Square root of a fraction. """
    if q == 0:
        return 0.0
    n = 1 << max(0, 140 - (q.numerator.bit_length() - q.denominator.bit_length()))
    return float(Fraction(math.isqrt(q.numerator * n * n // q.denominator), n))


def dist(a, b):
    return root(sum((Fraction(p) - Fraction(q)) ** 2 for p, q in zip(a, b)))


def compare(a, b, scale=0.0):
    """ a <= b, as far as rounding lets us tell. """
    tol = 1e-9 * max(abs(a), abs(b), scale)
    if abs(a - b) <= tol and not (a == b == 0.0 and scale == 0.0):
        return MAYBE
    return a <= b


def oracle(case, hist, h, v):
    """ True, False, MAYBE or the probability of True as ('p', x). """
    name, a = case['hunter'], case['args']
    fx = [r[1] for r in hist[v]]
    xs = [r[0] for r in hist[v]]
    n = len(fx)
    space = dist(*zip(*case['bounds']))
    if name == 'best':
        if n <= a['calls']:
            return False
        early = [q for q in fx[:-a['calls']] if q == q]
        every = [q for q in fx if q == q]
        b0, b1 = min(early, default=math.inf), min(every, default=math.inf)
        if not finite(b0) or not finite(b1):
            return MAYBE
        return compare(abs(b1 - b0), abs(b0 * a['tol'])) if b0 != b1 else True
    if name == 'evals':
        last = fx[-a['calls']:]
        if n < a['calls']:
            return False
        if not all(map(finite, last)):
            return False
        q = [Fraction(w) for w in last]
        mean = sum(q) / len(q)
        sd = root(sum((w - mean) ** 2 for w in q) / len(q))
        if sd == 0 and a['tol'] * abs(last[-1]) > 1e-9 * abs(last[-1]):
            return True
        return compare(sd, a['tol'] * abs(last[-1]), max(map(abs, last)) * 1e-3)
    if name == 'invalid':
        return n >= a['calls'] and not any(map(finite, fx[-a['calls']:]))
    if name == 'min':
        return n >= a['calls']
    if name == 'distance':
        other = [o for o in hist if o != v] if a['all'] else [h]
        res = [compare(dist(hist[o][-1][0], xs[-1]), a['tol'] * space) for o in other if o != v and hist[o]]
        return True if True in res else MAYBE if MAYBE in res else False
    if name == 'step':
        if n < a['calls']:
            return False
        t = xs[-a['calls']:]
        steps = [dist(p, q) for p, q in zip(t[1:], t[:-1])]
        return compare(sum(steps) / len(steps), a['tol'] * space)
    if name == 'time':
        r = len(hist[h]) / n
        return ('p', max(0.0, 1 - r / a['ratio']))
    if name == 'value':
        good = [q for q in fx if q == q]
        fv = min(good, default=math.inf)
        fh = min((q[1] for q in hist[h] if q[1] == q[1]), default=math.inf)
        if fh == 0 or fv <= fh:
            return False
        if not finite(fh):
            return MAYBE
        if not finite(fv):
            return ('p', 1.0)
        d = abs((fh - fv) / fh)
        return ('p', 1 - (1 - a['med']) ** d)
    if name == 'type':
        return case['types'][v - 1] == a['type']


def make(case):
    name, a, b = case['hunter'], case['args'], [tuple(q) for q in case['bounds']]
    return {'best': lambda: BestUnmoving(a['calls'], a['tol']), 'evals': lambda: EvaluationsUnmoving(a['calls'], a['tol']),
            'invalid': lambda: LastPointsInvalid(a['calls']), 'min': lambda: MinFuncCalls(a['calls']),
            'distance': lambda: ParameterDistance(b, a['tol'], a['all']), 'step': lambda: StepSize(b, a['calls'], a['tol']),
            'time': lambda: TimeAnnealing(a['ratio']), 'value': lambda: ValueAnnealing(a['med']),
            'type': lambda: TypeHunter(TYPES[a['type']])}[name]()


REJECT = [(MinFuncCalls, (0,)), (MinFuncCalls, (-2,)), (MinFuncCalls, (1.5,)), (ParameterDistance, ([(0, 1)], 0)),
          (ParameterDistance, ([(0, 1)], -0.1)), (ParameterDistance, ([(1, 1)], 0.1)), (StepSize, ([(0, float('inf'))], 3)),
          (TimeAnnealing, (0,)), (TimeAnnealing, (-1,)), (ValueAnnealing, (0,)), (ValueAnnealing, (1,)),
          (ValueAnnealing, (1.2,)), (TypeHunter, (int,))]


def run(case):
    hist = {o + 1: [] for o in range(case['n_opts'])}
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = len(case['bounds'])
    with E.scratch() as base, E.quiet():
        if case.get('file'):
            log = FileLogger(d, 100, False)
            log.open(base / 'log.h5', 'w', 'abc')
        else:
            log = BaseLogger(False)
        for o in hist:
            log.add_optimizer(o, case['types'][o - 1], datetime.datetime.now())
        for opt, fx, pos in case['evals']:
            o = opt % case['n_opts'] + 1
            x = [lo + (hi - lo) * pos[i % len(pos)] / 8 for i, (lo, hi) in enumerate(case['bounds'])]
            if not log.has_iter_history(o):
                log.add_iter_history(o)
            log.put_iteration(IterationResult(o, x, fx, []))
            hist[o].append((x, fx))
        usable = {o: min((q[1] for q in hist[o] if q[1] == q[1]), default=math.inf) for o in hist}
        h = min(usable, key=lambda o: usable[o])
        gone = set()
        if case.get('file') and case['hunter'] == 'distance':  # Those which have ended are no longer in memory
            gone = {o for o in hist if o in case.get('cleared', ()) and hist[o]}
        gone.discard(h)
        for o in gone:
            log.clear_cache(o)
        cond = make(case)
        got_all, nt = set(), False
        for v in hist:
            if v == h or not hist[v] or v in gone or not hist[h]:
                continue
            want = oracle(case, hist, h, v)
            if want is MAYBE:
                cond(log, h, v)
                continue
            if isinstance(want, tuple):
                p = want[1]
                n = 300
                k = sum(bool(cond(log, h, v)) for _ in range(n))
                need(_plausible(k, n, p), '{} killed optimizer {} {} times in {}, the probability is {:.4f} (hunter {}, victim {})',
                     cond, v, k, n, p, hist[h], hist[v])
                nt = nt or 0.05 < p < 0.95
                continue
            got = cond(log, h, v)
            need(bool(got) == want, '{} answers {} for hunter {} and victim {}, it should be {}. Evaluations: {}', cond, got,
                 h, v, want, hist)
            need(bool(cond.last_result) == want, '{} shows {}', cond, cond.last_result)
            got_all.add(want)
            nt = nt or len(hist[v]) > 1
        if case.get('file'):
            log.close()
    for cls, args in REJECT:
        try:
            cls(*args)
        except Exception:
            continue
        need(False, '{}{} was accepted', cls.__name__, args)
    return {'ok': True, 'nt': nt, 'tags': [case['hunter']] + [f"{case['hunter']}-{g}" for g in got_all] +
            (['file'] if case.get('file') else []) + (['cleared'] if gone else [])}


def _plausible(k, n, p):
    """ False only if the deviation has a probability below about 1e-12 (Chernoff bound). """
    if p <= 1e-12:
        return k == 0
    if p >= 1 - 1e-12:
        return k == n
    q = k / n
    if q == p:
        return True
    kl = (q * math.log(q / p) if q else 0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0)
    return n * kl < 28
