""" Benchmark functions against plain-Python transcriptions of their documentation. """
import math
import random
import time
import warnings

import numpy as np

import glompo.benchmark_fncs as B
from verdict import Known, need

pi = math.pi


def shubert_sum(x, f):
    return sum(j * f((j + 1) * x + j) for j in range(1, 6))


def shekel_table(m):
    a = [[4] * 4, [1] * 4, [8] * 4, [6] * 4, [3, 7, 3, 7], [2, 9, 2, 9], [5, 5, 3, 3], [8, 1, 8, 1], [6, 2, 6, 2], [7, 3.6, 7, 3.6]]
    c = {5: [.1, .2, .2, .4, .6], 7: [.1, .2, .2, .4, .4, .6, .3], 10: [.1, .2, .2, .4, .4, .6, .3, .7, .5, .5]}[m]
    return list(zip(a, c))


def trig(x):
    return 1 + sum(8 * math.sin(7 * (q - .9) ** 2) ** 2 + 6 * math.sin(14 * (q - .9) ** 2) ** 2 + (q - .9) ** 2 for q in x)


def levy(x):
    w = [1 + (q - 1) / 4 for q in x]
    return math.sin(pi * w[0]) ** 2 + sum((q - 1) ** 2 * (1 + 10 * math.sin(pi * q + 1) ** 2) for q in w[:-1]) + \
        (w[-1] - 1) ** 2 * (1 + math.sin(2 * pi * w[-1]) ** 2)


def rana(x):
    t = 0
    for q in x:
        m, p = math.sqrt(abs(x[0] - q + 1)), math.sqrt(abs(x[0] + q + 1))
        t += q * math.sin(m) * math.cos(p) + (x[0] + 1) * math.sin(p) * math.cos(m)
    return t


def langermann(x):
    t = 0
    for a, b, c in zip((3, 5, 2, 1, 7), (5, 2, 1, 4, 9), (1, 2, 5, 2, 3)):
        r = (x[0] - a) ** 2 + (x[1] - b) ** 2
        t -= c * math.cos(pi * r) / math.exp(r / pi)
    return t


def deceptive(x, a, b):
    def g(q, s):
        if not 0 <= q <= 1:
            return 0.0
        if q <= .8 * s:
            return .8 - q / s
        if q <= s:
            return 5 * q / s - 4
        if q <= (1 + 4 * s) / 5:
            return 5 * (q - s) / (s - 1) + 1
        return (q - 1) / (1 - s) + .8
    return -max(0.0, sum(map(g, x, a)) / len(x)) ** b


def pairs(x, n, d):
    pts = [x[i * d:(i + 1) * d] for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            yield i, j, [p - q for p, q in zip(pts[i], pts[j])]


def lennard(x, n, d, eps, sig):
    t = 0
    for _, _, v in pairs(x, n, d):
        r2 = sum(q * q for q in v)
        if r2:
            s = sig * sig / r2
            t += s ** 6 - s ** 3
    return 4 * eps * t


def slope(x, n, d, eps, sig):
    g = [0.0] * (n * d)
    for i, j, v in pairs(x, n, d):
        r2 = sum(q * q for q in v)
        if not r2:
            continue
        f = -24 * eps * (2 * sig ** 12 / r2 ** 7 - sig ** 6 / r2 ** 4)
        for k in range(d):
            g[i * d + k] += f * v[k]
            g[j * d + k] -= f * v[k]
    return g


def zero_sum(x):
    s = math.fsum(x)
    return 0 if s == 0 else 1 + math.sqrt(10000 * abs(s))


# name: (arguments, bounds, reference, location of the minimum, its value, tolerance of the value)
def table(c):
    d, p = c['dims'], c['par']
    one = lambda v: (lambda n: [v] * n)
    sh = bool(p.get('shift'))
    return {
        'Ackley': (lambda x: -p['a'] * math.exp(-p['b'] * math.sqrt(sum(q * q for q in x) / d)) -
                   math.exp(sum(math.cos(p['c'] * q) for q in x) / d) + p['a'] + math.e, (-32.768, 32.768), one(0.0), 0, 1e-12),
        'Alpine01': (lambda x: sum(abs(q * math.sin(q) + .1 * q) for q in x), (-10, 10), one(0.0), 0, 1e-12),
        'Alpine02': (lambda x: -np.prod([math.sqrt(q) * math.sin(q) for q in x]), (0, 10), one(7.917), -2.808 ** d, 1e-3 * 2.808 ** d),
        'Easom': (lambda x: -math.cos(x[0]) * math.cos(x[1]) * math.exp(-(x[0] - pi) ** 2 - (x[1] - pi) ** 2) + sh, (-100, 100),
                  one(pi), -1 + sh, 1e-9),
        'Griewank': (lambda x: sum(q * q for q in x) / 4000 - np.prod([math.cos(q / math.sqrt(i)) for i, q in enumerate(x, 1)]) + 1,
                     (-600, 600), one(0.0), 0, 1e-12),
        'Langermann': (lambda x: langermann(x) + (5.2 if sh else 0), (0, 10), lambda n: [2.00299219, 1.006096],
                       -5.1621259 + (5.2 if sh else 0), 1e-6),
        'Levy': (levy, (-10, 10), one(1.0), 0, 1e-12),
        'Michalewicz': (lambda x: -sum(math.sin(q) * math.sin(i * q * q / pi) ** (2 * p['m']) for i, q in enumerate(x, 1)), (0, pi), None,
                        {2: -1.8013, 5: -4.687658, 10: -9.66015}.get(d, 'none'), 1e-4),
        'Qing': (lambda x: sum((q * q - i) ** 2 for i, q in enumerate(x, 1)), (-500, 500),
                 lambda n: [math.sqrt(i) for i in range(1, n + 1)], 0, 1e-9),
        'Rana': (rana, (-500.000001, 500.000001), one(-500.0), -928.5478 / 2 * d, 1e-3 * d),
        'Rastrigin': (lambda x: 10 * d + sum(q * q - 10 * math.cos(2 * pi * q) for q in x), (-5.12, 5.12), one(0.0), 0, 1e-11),
        'Rosenbrock': (lambda x: sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(d - 1)), (-2.048, 2.048), one(1.0),
                       0, 1e-12),
        'Schwefel': (lambda x: -sum(q * math.sin(math.sqrt(abs(q))) for q in x) + (418.983 * d if sh else 0), (-500, 500), one(420.9687),
                     (0.0001 if sh else -418.9829) * d, 1e-4 * d),
        'Shekel': (lambda x: -sum(1 / (s + sum((q - t) ** 2 for q, t in zip(x, a))) for a, s in shekel_table(p['m'])) + 12 * sh,
                   (-32.768, 32.768), one(4.0), 'any', 0),
        'Shubert': ({1: lambda x: np.prod([shubert_sum(q, math.cos) for q in x]) + 186.731 * sh,
                     3: lambda x: sum(shubert_sum(q, math.sin) for q in x) + 24.062499 * sh,
                     4: lambda x: sum(shubert_sum(q, math.cos) for q in x) + 29.016015 * sh}[p.get('style', 1)], (-10, 10), None,
                    0 if sh and d == 2 else {1: -186.7309, 3: -24.062499, 4: -29.016015}[p.get('style', 1)] if d == 2 else 'any', 1e-3),
        'StyblinskiTang': (lambda x: .5 * sum(q ** 4 - 16 * q * q + 5 * q for q in x), (-500, 500), one(-2.90353401818596),
                           -39.16616570377142 * d, 1e-9 * d),
        'Trigonometric': (trig, (-500, 500), one(0.9), 1, 1e-12),
        'Vincent': (lambda x: -sum(math.sin(10 * math.log(q)) for q in x), (0.25, 10), one(7.70628098), -d, 1e-7 * d),
        'ZeroSum': (zero_sum, (-10, 10), one(0.0), 0, 0),
    }[c['fn']]


def points(c, bounds, best):
    rnd = random.Random(c['seed'])
    out = []
    for kind in c['points']:
        if kind == 'rand':
            out.append([rnd.uniform(*b) for b in bounds])
        elif kind == 'edge':
            out.append([rnd.choice(b) for b in bounds])
        elif kind == 'int':
            out.append([rnd.randint(math.ceil(lo), math.floor(hi)) for lo, hi in bounds])
        elif kind == 'dyadic':
            out.append([min(hi, max(lo, round(rnd.uniform(lo, hi) * 8) / 8)) for lo, hi in bounds])
        elif kind == 'best' and best is not None:
            out.append(list(best))
        elif best is not None:
            s = 10.0 ** -rnd.randint(0, 6)
            out.append([min(hi, max(lo, q + rnd.uniform(-s, s))) for q, (lo, hi) in zip(best, bounds)])
        else:
            m = [rnd.uniform(*b) for b in bounds]
            i = rnd.randrange(len(m))
            m[i] = rnd.choice(bounds[i])
            out.append(m)
    return out


def value(f, x, form, name):
    given = {'list': list, 'array': np.array, 'tuple': tuple}[form](x)
    kept = list(x)
    v = f(given)
    need(isinstance(v, (float, int, np.floating, np.integer)), '{} returned {!r}', name, v)
    need(list(given) == kept, '{} changed the vector {} into {}', name, kept, list(given))
    return float(v)


def run(case):
    warnings.simplefilter('ignore')
    np.random.seed(case['seed'])
    return {'Deceptive': deceptive_case, 'Stochastic': stochastic_case, 'ExpLeastSquaresCost': exp_case,
            'LennardJones': lj_case}.get(case['fn'], plain)(case)


def build(name, d, p, delay=0.0):
    kw = {'delay': delay}
    if 'shift' in p:
        kw['shift_positive'] = p['shift']
    kw.update({k: v for k, v in p.items() if k != 'shift'})
    return getattr(B, name)(d, **kw)


def frame(f, name, d, bounds):
    need(f.dims == d, '{} with {} parameters has dims {}', name, d, f.dims)
    got = [tuple(map(float, q)) for q in f.bounds]
    need(len(got) == d and all(abs(g - w) <= 1e-12 * abs(w) for q, b in zip(got, bounds) for g, w in zip(q, b)), 'bounds of {} in {} '
         'dimensions are {}', name, d, got)


def slow(make, x):
    f = make(0.02)
    need(f.delay == 0.02, 'delay is {}', f.delay)
    t = time.perf_counter()
    f(x)
    t = time.perf_counter() - t
    need(t >= 0.018, 'an evaluation with a delay of 20 ms took {:.2f} ms', t * 1000)


def plain(c):
    name, d = c['fn'], c['dims']
    ref, bnd, where, low, tol = table(c)
    if name == 'Shekel' and c.get('bad'):
        for args in ({'m': 6}, {'m': 0}, {'dims': 5}, {'dims': 0}):
            try:
                B.Shekel(**{'dims': 2, **args})
            except (ValueError, AssertionError):
                continue
            need(False, 'Shekel accepted {}', args)
    f = build(name, d, c['par'])
    bounds = [bnd] * d
    frame(f, name, d, bounds)
    best = None if where is None else where(d)
    if best is not None:
        got = list(f.min_x)
        need(len(got) == d and all(abs(p - q) <= 1e-6 for p, q in zip(got, best)), 'min_x of {} is {} instead of {}', name, got, best)
        need(all(lo <= q <= hi for q in got for lo, hi in bounds[:1]), 'min_x {} of {} is out of bounds', got, name)
    lo = None if low == 'any' else f.min_fx
    if low == 'none':
        need(lo == math.inf, 'the unknown minimum of {} in {} dimensions is {}', name, d, lo)
    elif low != 'any':
        need(abs(lo - low) <= tol + 1e-12, 'min_fx of {} in {} dimensions is {} instead of {}', name, d, lo, low)
    elif name == 'Shubert' and d > 2:
        need(f.min_fx is None, 'the unknown minimum of Shubert is {}', f.min_fx)
    if best is not None and low not in ('any', 'none'):
        v = value(f, list(f.min_x), 'list', name)
        need(abs(v - lo) <= tol + 1e-9, '{}(min_x) is {} but min_fx is {}', name, v, lo)
    distinct = set()
    lower = None
    for k, x in enumerate(points(c, bounds, best)):
        form = c['forms'][k % len(c['forms'])]
        v, w = value(f, x, form, name), float(ref(x))
        if name == 'ZeroSum' and abs(math.fsum(x)) < 1e-9 and math.fsum(x) != 0:
            continue
        scale = 1 + abs(w) + {'Qing': max(x) ** 4, 'StyblinskiTang': max(map(abs, x)) ** 4, 'Schwefel': 500.0 * d, 'Rana': 1000.0 * d,
                              'Rastrigin': 50.0 * d, 'Trigonometric': 3e4}.get(name, 1.0)
        need(abs(v - w) <= 1e-9 * scale, '{}{} of {} ({}) is {} instead of {}', name, c['par'], x, form, v, w)
        need(value(f, x, form, name) == v, '{} of {} is not reproducible', name, x)
        distinct.add(v)
        if low not in ('any', 'none') and (name != 'Michalewicz' or c['par']['m'] == 10) and v < lo - tol - 1e-9:
            lower = (x, v)
        if name == 'Shekel' and c['par'].get('shift') and d > 1:
            need(v > 0, 'the shifted Shekel is {} at {}', v, x)
    if c['slow']:
        slow(lambda q: build(name, d, c['par'], q), x)
    if lower and name == 'Rana':
        raise Known('rana-min', 'Rana: values below min_fx exist')
    need(lower is None, '{} is {} at {}, below the minimum {}', name, lower and lower[1], lower and lower[0], lo)
    return {'ok': True, 'nt': len(distinct) > 2, 'tags': [name]}


def deceptive_case(c):
    d, p = c['dims'], c['par']
    f = build('Deceptive', d, p)
    frame(f, 'Deceptive', d, [(0.0, 1.0)] * d)
    a = [float(q) for q in f.min_x]
    need(len(a) == d and all(0 <= q <= 1 for q in a), 'min_x of Deceptive is {}', a)
    sh = 1 if p.get('shift') else 0
    need(f.min_fx == -1 + sh, 'min_fx is {}', f.min_fx)
    need(abs(value(f, a, 'array', 'Deceptive') - f.min_fx) < 1e-9, 'Deceptive(min_x) is {}', f(a))
    vals = set()
    special = [[0.8 * q for q in a], [(1 + 4 * q) / 5 * 0.999 for q in a], [0.0] * d, [1.0] * d]
    for k, x in enumerate(points(c, [(0.0, 1.0)] * d, a) + special):
        v, w = value(f, x, c['forms'][k % len(c['forms'])], 'Deceptive'), deceptive(x, a, p['b']) + sh
        if v != v and w > -1e-9 + sh:
            continue
        eps = 1e-7 if p['b'] < 1 else 1e-9
        need(abs(v - w) <= eps, 'Deceptive (minimum at {}, b={}) of {} is {} instead of {}', a, p['b'], x, v, w)
        need(v >= f.min_fx - 1e-9, 'Deceptive is {} at {}, below its minimum', v, x)
        vals.add(v)
    g = build('Deceptive', d, p)
    need(list(g.min_x) != a, 'two functions have the same random minimum')
    if c['slow']:
        slow(lambda q: build('Deceptive', d, p, q), a)
    return {'ok': True, 'nt': len(vals) > 2, 'tags': ['Deceptive']}


def stochastic_case(c):
    d = c['dims']
    f = build('Stochastic', d, {})
    frame(f, 'Stochastic', d, [(-5, 5)] * d)
    best = [1 / i for i in range(1, d + 1)]
    need(np.allclose(f.min_x, best) and f.min_fx == 0 and abs(f(f.min_x)) < 1e-12, 'minimum of Stochastic: {}', f.min_x)
    for x in points(c, [(-5, 5)] * d, best)[:2]:
        top = sum(abs(q - b) for q, b in zip(x, best))
        vals = [value(f, x, c['forms'][0], 'Stochastic') for _ in range(150)]
        need(all(0 <= v <= top * (1 + 1e-12) for v in vals), 'Stochastic of {} is not between 0 and {}', x, top)
        sd = math.sqrt(sum((q - b) ** 2 for q, b in zip(x, best)) / 12 / 150)
        need(abs(sum(vals) / 150 - top / 2) <= 7 * sd + 1e-12, 'the mean of Stochastic at {} is {} instead of {}', x, sum(vals) / 150, top / 2)
        if top > 1e-6:
            need(len(set(vals)) > 100, 'Stochastic is not random')
    if c['slow']:
        slow(lambda q: build('Stochastic', d, {}, q), best)
    return {'ok': True, 'nt': True, 'tags': ['Stochastic']}


def exp_case(c):
    d, p = c['dims'], c['par']
    kw = {k: v for k, v in p.items() if k != 'u'}
    kw['p_range'] = tuple(kw['p_range'])
    u = p['u']
    arg = {'int': 6, 'pair': (1.5, 3.0), 'list': [0.5 * i for i in range(1, u[1] + 1)]}[u[0]]
    f = B.ExpLeastSquaresCost(d, u_train=arg, **kw)
    n = u[1] if u[0] == 'list' else kw['n_train']
    lo, hi = kw['p_range']
    frame(f, 'ExpLeastSquaresCost', d, [(lo, hi)] * d)
    need(len(f.u_train) == n and len(f.g_train) == n, 'asked for {} training points but got {} and {}', n, len(f.u_train), len(f.g_train))
    if u[0] == 'list':
        need(list(f.u_train) == arg, 'training points {} instead of {}', f.u_train, arg)
    else:
        a, b = (0, 6) if u[0] == 'int' else arg
        need(all(a <= q <= b for q in f.u_train) and len(set(f.u_train)) == n, 'training points {} are not in {}', f.u_train, (a, b))
    true = [float(q) for q in f.min_x]
    need(all(lo <= q <= hi for q in true), 'true parameters {} are out of {}', true, (lo, hi))
    model = lambda x: [sum(math.exp(-q * t) for q in x) for t in f.u_train]
    core = model(true)
    for g, w in zip(f.g_train, core):
        need(abs(g - w) <= (kw['sigma_fixed'] + 1e-9) * abs(w), 'training value {} instead of {} with noise {}', g, w, kw['sigma_fixed'])
    need(abs(f.min_fx - sum((g - w) ** 2 for g, w in zip(f.g_train, core))) <= 1e-9 * (1 + f.min_fx), 'min_fx is {}', f.min_fx)
    if not kw['sigma_fixed'] and not kw['sigma_eval']:
        need(f(f.min_x) <= 1e-9 * sum(core) ** 2, 'the error at min_x is {}', f(f.min_x))
    noise = set()
    for k, x in enumerate(points(c, [(lo, hi)] * d, true)):
        x = [float(q) for q in x]
        form = c['forms'][k % len(c['forms'])]
        m = model(x)
        want = [a - b for a, b in zip(m, f.g_train)]
        v = value(f, x, form, 'ExpLeastSquaresCost')
        tot = sum(q * q for q in want)
        s = kw['sigma_eval']
        eps = 1e-9 * (tot + sum(q * q for q in m) + 1)
        need((1 - s) ** 2 * tot - eps <= v <= (1 + s) ** 2 * tot + eps, 'ExpLeastSquaresCost of {} is {}, expected {} with noise {}', x, v, tot, s)
        err = f.detailed_call(np.array(x))
        need(len(err) == n, '{} contributions instead of {}', len(err), n)
        for e, w, q in zip(err, want, m):
            need(abs(e - w) <= (s + 1e-9) * abs(w) + 1e-9 * (1 + abs(q)), 'contribution {} instead of {}', e, w)
        if tot > 1e-6:
            noise.add(round(v / tot, 9))
    if c['slow']:
        slow(lambda q: B.ExpLeastSquaresCost(d, u_train=arg, delay=q, **kw), true)
    return {'ok': True, 'nt': len(noise) > 1 or not s, 'tags': ['ExpLeastSquaresCost']}


def lj_case(c):
    n, d, p = c['atoms'], c['dims'], c['par']
    eps, sig = p['eps'], p['sigma']
    f = B.LennardJones(n, d, eps, sig)
    b = 2 ** (-1 / 6) * sig * (math.pi * n / 3) ** (1 / 3)
    frame(f, 'LennardJones', n * d, [(-b, b)] * (n * d))
    e = f.min_fx
    need(math.isfinite(e) == (d == 3), 'the minimum for {} atoms in {} dimensions is {}', n, d, e)
    if d == 3 and n >= 8:
        need(-12 * n < e < -1.5 * n, 'the minimum for {} atoms is {}', n, e)
    nt = 0
    for k, x in enumerate(points(c, [(-b, b)] * (n * d), None)):
        w = lennard(x, n, d, eps, sig)
        # Rounding of the distances matters for atoms which are nearly in the same place
        close = min((sum(q * q for q in v) for _, _, v in pairs(x, n, d)), default=1.0)
        if 0 < close < 1e-6 * sig * sig:
            continue
        form = c['forms'][k % len(c['forms'])]
        v = value(f, x, form, 'LennardJones')
        big = lennard_abs(x, n, d, eps, sig)
        need(abs(v - w) <= 1e-9 * big, 'LennardJones(eps={}, sigma={}) of {} is {} instead of {}', eps, sig, x, v, w)
        v2 = f(np.array(x, dtype=float).reshape(n, d))
        need(abs(v2 - v) <= 1e-12 * big, 'the value of the {} x {} array is {} instead of {}', n, d, v2, v)
        g, want = f.jacobian(np.array(x) if form == 'array' else list(x)), slope(x, n, d, eps, sig)
        top = max(map(abs, want), default=0.0)
        need(np.shape(g) == (n * d,) and all(abs(a - q) <= 1e-8 * top + 1e-300 for a, q in zip(g, want)), 'the gradient of '
             'LennardJones(eps={}, sigma={}) at {} is {} instead of {}', eps, sig, x, g, want)
        nt += 1
    if c['slow']:
        slow(lambda q: B.LennardJones(n, d, eps, sig, delay=q), x)
    return {'ok': True, 'nt': nt > 0 and n > 1, 'tags': ['LennardJones']}


def lennard_abs(x, n, d, eps, sig):
    t = 1e-300
    for _, _, v in pairs(x, n, d):
        r2 = sum(q * q for q in v)
        if r2:
            s = sig * sig / r2
            t += s ** 6 + s ** 3
    return 4 * eps * t
