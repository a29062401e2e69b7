""" Starting point generators. """
import math
import random

import numpy as np

import engine as E
from verdict import need
from glompo.common.namedtuples import IterationResult, Result
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger
from glompo.generators import (BaseGenerator, ExploitExploreGenerator, IncumbentGenerator, RandomGenerator,
                               SinglePointGenerator)
from glompo.generators.basinhopping import BasinHoppingGenerator

SIG = 7.0  # A sound generator fails a statistical check with a probability below 1e-11


def vec(v, n, what):
    a = np.array(v, dtype=float)
    need(a.shape == (n,), '{} has shape {} instead of ({},): {}', what, a.shape, n, v)
    need(bool(np.all(np.isfinite(a))), '{} is not finite: {}', what, v)
    return a


def inside(a, bounds, what, slack=1e-12):
    for q, (lo, hi) in zip(a, bounds):
        eps = slack * max(abs(lo), abs(hi))
        need(lo - eps <= q <= hi + eps, '{} {} is outside the bounds {}', what, list(a), bounds)


def binomial(k, n, p, what):
    need(abs(k - n * p) <= SIG * math.sqrt(n * p * (1 - p)) + 1e-9, '{}: {} of {}, expected about {:.1f}', what, k, n, n * p)


def uniform(points, bounds, what):
    """ The points are independent uniform samples, as far as cheap statistics can tell. """
    pts = (np.array(points) - np.array(bounds)[:, 0]) / (np.array(bounds)[:, 1] - np.array(bounds)[:, 0])
    n, d = pts.shape
    for j in range(d):
        for q in range(4):
            binomial(int(np.sum((pts[:, j] >= q / 4) & (pts[:, j] < (q + 1) / 4))), n, 0.25,
                     f'{what}: samples in quarter {q} of parameter {j}')
        if n > 1:
            binomial(int(np.sum((pts[1:, j] > 0.5) == (pts[:-1, j] > 0.5))), n - 1, 0.5,
                     f'{what}: consecutive samples in the same half of parameter {j}')
        for i in range(j):
            binomial(int(np.sum((pts[:, j] > 0.5) == (pts[:, i] > 0.5))), n, 0.5,
                     f'{what}: parameters {i} and {j} in the same half')


def manager(bounds):
    E.use_fake_manager()
    m = GloMPOManager()
    m.bounds = bounds
    m.n_parms = len(bounds)
    m.opt_log = BaseLogger(False)
    m.result = Result(None, None, None, None)
    m.f_counter = m.o_counter = 0
    return m


def feed(m, evals, bounds, n_opts, model):
    """ Adds optimizers and evaluations to the log of the manager. """
    while len(model) < n_opts:
        i = len(model) + 1
        m.o_counter = max(m.o_counter, i)
        m.opt_log.add_optimizer(i, 'Opt', 'now')
        model[i] = (math.inf, None)
    for opt, fx, pos in evals:
        opt = opt % n_opts + 1
        x = [lo + (hi - lo) * p / 8 for p, (lo, hi) in zip(pos, bounds)]
        m.f_counter += 1
        m.opt_log.put_iteration(IterationResult(opt, x, fx, ()))
        if fx < model[opt][0]:
            model[opt] = (fx, x)
            if m.result.fx is None or fx < m.result.fx:
                m.result = Result(x, fx, {}, {'opt_id': opt})


def run(case):
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    return globals()['k_' + case['gen']](case)


def k_random(case):
    b, d = case['bounds'], len(case['bounds'])
    g = RandomGenerator(b)
    m = manager(b)
    pts = []
    for _ in range(case['draws']):
        p = g.generate(m)
        a = vec(p, d, 'a random vector')
        inside(a, b, 'a random vector')
        pts.append(a)
    uniform(pts, b, 'RandomGenerator')
    return {'ok': True, 'nt': d > 1, 'tags': ['random']}


def k_incumbent(case):
    b, d = case['bounds'], len(case['bounds'])
    g = IncumbentGenerator(b)
    m = manager(b)
    model = {}
    rnd, hits = [], 0
    for step in case['steps']:
        feed(m, step['evals'], b, max(step['opts'], 1), model)
        if m.result.x is not None and step['kind'] not in ('list', 'empty'):
            conv = {'array': np.array, 'tuple': tuple}[step['kind']]
            m.result = m.result._replace(x=conv(m.result.x))
        if m.result.x is None and step['kind'] == 'empty':
            m.result = m.result._replace(x=[], fx=math.inf)
        for _ in range(3 if m.result.x is not None and len(m.result.x) else 40):
            p = g.generate(m)
            a = vec(p, d, 'the vector')
            if m.result.x is None or len(m.result.x) == 0:
                inside(a, b, 'the vector without incumbent')
                rnd.append(a)
            else:
                need(list(a) == list(m.result.x), 'the vector is {} instead of the incumbent {}', list(a), m.result.x)
                hits += 1
            was = None if m.result.x is None else list(m.result.x)
            if case['mutate']:
                try:
                    for i in range(d):
                        p[i] = 1e9
                except TypeError:
                    pass
                now = None if m.result.x is None else list(m.result.x)
                need(now == was, 'changing the returned vector changed the incumbent {} into {}', was, now)
                need(all(q is None or list(m.opt_log.get_best_iter(i)['x']) == q for i, (_, q) in model.items()),
                     'changing the returned vector changed the log')
    if rnd:
        uniform(rnd, b, 'IncumbentGenerator without incumbent')
    return {'ok': True, 'nt': bool(hits and rnd), 'tags': ['incumbent']}


def k_single(case):
    b, d = case['bounds'], len(case['bounds'])
    m = manager(b)
    firsts = []
    for k in range(case['draws'] if case['x'] is None else 4):
        x = None if case['x'] is None else [lo + (hi - lo) * p / 8 for p, (lo, hi) in zip(case['x'], b)]
        if x is not None:
            given = {'list': list, 'array': np.array, 'tuple': tuple}[case['kind']](x)
            g = SinglePointGenerator(b, given)
        else:
            g = SinglePointGenerator(b)
        first = None
        for _ in range(4):
            p = g.generate(m)
            a = list(vec(p, d, 'the vector'))
            if first is None:
                first = a
                firsts.append(np.array(a))
                inside(a, b, 'the vector')
                need(x is None or a == x, 'the vector is {} instead of the provided {}', a, x)
            need(a == first, 'the single point was {} and is now {}', first, a)
            if case['mutate'] and not isinstance(p, tuple):
                p[0] = p[0] + 1
                if d > 1:
                    p[1] = 7
            if x is not None:
                need(list(given) == x, 'the vector of the user changed from {} to {}', x, given)
    if case['x'] is None:
        uniform(firsts, b, 'SinglePointGenerator')
    return {'ok': True, 'nt': case['mutate'], 'tags': ['single']}


def k_blend(case):
    b, d = case['bounds'], len(case['bounds'])
    fmax, focus = case['fmax'], case['focus']
    g = ExploitExploreGenerator(b, fmax, focus)
    m = manager(b)
    model, best_seen = {}, 0
    span = np.array(b)[:, 1] - np.array(b)[:, 0]
    for step in case['steps']:
        feed(m, step['evals'], b, max(step['opts'], 1), model)
        m.f_counter = step['f']
        alpha = min(max(m.f_counter / fmax, 0.0), 1.0) ** focus
        usable = {i: v for i, v in model.items() if math.isfinite(v[0])}
        worst = max((v[0] for v in usable.values()), default=0.0)
        weight = {i: worst - v[0] for i, v in usable.items() if worst > v[0]}
        tot = sum(weight.values())
        pts = [vec(g.generate(m), d, 'the vector') for _ in range(step['draws'])]
        for a in pts:
            inside(a, b, 'the vector')
        need(not case['mutate'] or all(q is None or list(m.opt_log.get_best_iter(i)['x']) == q for i, (_, q) in
                                       model.items()), 'generating changed the log')
        if not weight or not math.isfinite(tot):
            if not weight:
                uniform(pts, b, 'ExploitExplore without optimizers to distinguish')
            continue
        if alpha == 0:
            uniform(pts, b, 'ExploitExplore at the start')
            continue
        places = {}
        for i in weight:
            places.setdefault(tuple(usable[i][1]), []).append(i)
        counts = dict.fromkeys(places, 0)
        rest = []
        for a in pts:
            fits = []
            for place in places:
                if alpha > 1 - 1e-9:
                    if np.all(np.abs(a - np.array(place)) <= 1e-8 * (span + np.abs(place))):
                        fits.append(place)
                else:
                    r = (a - alpha * np.array(place)) / (1 - alpha)
                    eps = 1e-9 * (1 + np.abs(np.array(b)).max()) / (1 - alpha)
                    if np.all(r >= np.array(b)[:, 0] - eps) and np.all(r <= np.array(b)[:, 1] + eps):
                        fits.append(place)
                        if len(places) == 1 and alpha < 0.9:
                            rest.append(np.clip(r, np.array(b)[:, 0], np.array(b)[:, 1] - 1e-12 * span))
            need(fits, 'the vector {} is not a blend ({:.4g} : {:.4g}) of a random vector and the best of any of the optimizers {}',
                 list(a), alpha, 1 - alpha, {i: usable[i] for i in weight})
            if len(fits) == 1:
                counts[fits[0]] += 1
        if rest and eps < 1e-6:
            uniform(rest, b, 'the random part of ExploitExplore')
        if alpha > 1 - 1e-9 and len(places) > 1:
            for q, ids in places.items():
                binomial(counts[q], len(pts), sum(weight[i] for i in ids) / tot, f'selections of the best of optimizers {ids} (weights {weight})')
        best_seen += 1
    return {'ok': True, 'nt': best_seen > 0, 'tags': ['blend']}


def k_basin(case):
    b, d = case['bounds'], len(case['bounds'])
    T, big, interval, factor, target = case['T'], case['step'], case['interval'], case['factor'], case['target']
    g = BasinHoppingGenerator(temperature=T, max_step_size=big, target_accept_rate=target, interval=interval, factor=factor)
    m = manager(b)
    model = {}
    state = (0, math.inf)
    acc = -1
    sure = True
    free, moved = [], 0
    step = big
    seen = set()
    for rec in case['steps']:
        feed(m, rec['evals'], b, max(rec['opts'], 1), model)
        if rec['start'] is not None:
            m.o_counter = max(m.o_counter, rec['start'])
        # opt_log may now know fewer optimizers than o_counter says: only the counter matters for the step size
        before = {i: (v[0], None if v[1] is None else list(v[1])) for i, v in model.items()}
        lead = min(model, key=lambda i: (model[i][0])) if model else None
        real = m.opt_log.get_best_iter()['opt_id']
        repeat = rec['draws'] if m.o_counter % interval else 1
        counts = {}
        ambiguous = 0
        for _ in range(repeat):
            p = g.generate(m)
            a = vec(p, d, 'the vector')
            need(abs(g.step_size) <= big * (1 + 1e-12), 'the step size {} is above the maximum {}', g.step_size, big)
            if not model or model[lead][0] == math.inf:
                inside(a, b, 'the vector without incumbent')
                free.append(a)
                continue
            best = model[real]
            if best[0] <= state[1] and real != state[0]:
                acc += 1
                state = (real, best[0])
            old = step
            opts = {old}
            if m.o_counter % interval == 0:
                opts |= {old * factor, min(old / factor, big)}
            need(any(abs(g.step_size - q) <= 1e-9 * abs(q) for q in opts), 'with {} optimizers started and adjustments every {} the '
                 'step size changed from {} to {}', m.o_counter, interval, old, g.step_size)
            limit = max(g.step_size, 0) * (1 + 1e-9)
            fits = [i for i, (fx, x) in model.items() if x is not None and
                    np.all(np.abs(a - np.array(x)) <= limit + 1e-9 * (1 + np.abs(x)))]
            allowed = [i for i in fits if i == real or T == math.inf or (T > 0 and math.exp(min(0, -(model[i][0] - best[0]) / T)) > 1e-13)
                       or model[i][0] == best[0]]
            need(allowed, 'the vector {} is not within {} of the best {} nor of an acceptable other optimizer {}', list(a),
                 g.step_size, best, model)
            if len(fits) > 1:
                ambiguous += 1
                sure = False
            elif fits[0] != real:
                acc += 1
                moved += 1
                counts[fits[0]] = counts.get(fits[0], 0) + 1
            if m.o_counter % interval == 0:
                # Whether the first incumbent counts as an improvement is left open
                rates = [q / m.o_counter for q in (acc, acc + 1)]
                if sure and all(r > target for r in rates):
                    need(abs(g.step_size - min(old / factor, big)) <= 1e-9 * big, 'accept rate above target but the step size went '
                         'from {} to {}', old, g.step_size)
                    seen.add('up')
                if sure and all(r < target for r in rates):
                    need(abs(g.step_size - old * factor) <= 1e-9 * big, 'accept rate below target but the step size went from {} to '
                         '{}', old, g.step_size)
                    seen.add('down')
            step = g.step_size
        for i, v in before.items():
            need(v[1] is None or list(m.opt_log.get_best_iter(i)['x']) == v[1], 'generating changed the best solution of '
                 'optimizer {} from {} to {}', i, v[1], m.opt_log.get_best_iter(i)['x'])
        need(m.result.x is None or list(m.result.x) == model[m.result.origin['opt_id']][1], 'generating changed the incumbent')
        if model and model[lead][0] != math.inf and not ambiguous and repeat > 20 and math.isfinite(model[real][0]):
            others = [i for i in model if i != real]
            for i in others:
                if model[i][1] is None or not math.isfinite(model[i][0]):
                    continue
                if T == 0:
                    if model[i][0] == model[real][0]:
                        continue
                    w = 0.0
                else:
                    w = math.exp(min(0.0, -(model[i][0] - model[real][0]) / T))
                binomial(counts.get(i, 0), repeat, w / len(others), f'basin hopping moved to optimizer {i} with value '
                         f'{model[i][0]} (best {model[real][0]}, temperature {T}, {len(others)} others)')
            seen.add('metropolis')
    if len(free) > 30:
        uniform(free, b, 'BasinHopping without incumbent')
    return {'ok': True, 'nt': moved > 0 or bool(seen), 'tags': ['basin'] + sorted(seen)}


def k_reject(case):
    b = case['bounds']
    bad = [list(q) for q in b]
    i = case['where'] % len(bad)
    bad[i] = case['bad']
    for cls in (RandomGenerator, IncumbentGenerator, SinglePointGenerator, lambda q: ExploitExploreGenerator(q, 10)):
        cls(b)
        try:
            cls(bad)
        except ValueError:
            continue
        need(False, 'the bounds {} were accepted by {}', bad, cls)
    for args, err in (((b, 1), ValueError), ((b, 0), ValueError), ((b, -5), ValueError), ((b, 10.5), TypeError), ((b, '9'), TypeError),
                      ((b, 10, 0), ValueError), ((b, 10, -1), ValueError), ((b, 10, -0.001), ValueError)):
        try:
            ExploitExploreGenerator(*args)
        except err:
            continue
        need(False, 'ExploitExploreGenerator{} was accepted', args[1:])
    ExploitExploreGenerator(b, 2, 1e-3)
    return {'ok': True, 'nt': True, 'tags': ['reject']}
