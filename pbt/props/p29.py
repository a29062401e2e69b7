""" Helpers documented for users and plug-in authors. """
import itertools
import logging
import math
import os
import re
import warnings
from pathlib import Path

import numpy as np
import tables as tb

import engine as E
from verdict import need, Known
from glompo.common.helpers import (SplitOptimizerLogs, WorkInDirectory, distance, glompo_colors, infer_headers, is_bounds_valid,
                                   present_memory, rolling_min, unravel)
from glompo.common.wrappers import decorate_all_methods, needs_optional_package


def bounds(c):
    b = c['bounds']
    if c['as'] == 'array':
        b = np.array(b, dtype=float)
    elif c['as'] == 'tuples':
        b = tuple(map(tuple, b))
    ok = all(math.isfinite(lo) and math.isfinite(hi) and lo < hi for lo, hi in c['bounds'])
    need(is_bounds_valid(b, raise_invalid=False) == ok, 'is_bounds_valid({}) is not {}', b, ok)
    try:
        need(is_bounds_valid(b) and ok, '{} were accepted', b)
    except ValueError as e:
        need(not ok, '{} raised {!r}', b, e)
    return len(c['bounds']) > 1 and not ok, ['valid' if ok else 'invalid']


def dist(c):
    a, b = c['a'], c['b']
    mk = np.array if c['as'] == 'array' else tuple if c['as'] == 'tuple' else list
    got = distance(mk(a), mk(b))
    want = math.sqrt(math.fsum((p - q) ** 2 for p, q in zip(a, b)))
    need(math.isclose(got, want, rel_tol=1e-12, abs_tol=1e-300), 'distance of {} and {} is {!r}, not {!r}', a, b, got, want)
    need(distance(mk(b), mk(a)) == got, 'distance is not symmetric for {} and {}', a, b)
    return len(a) > 1 and want > 0, []


def rolling(c):
    x = c['x']
    keep = list(x)
    bad = any(not isinstance(v, (int, float)) or v != v for v in x)
    try:
        got = rolling_min(tuple(x) if c['as'] == 'tuple' else x)
    except AssertionError:
        need(bad, 'rolling_min({}) failed', x)
        return True, ['refused']
    need(not bad, 'rolling_min({}) gave {}', x, got)
    need(list(got) == list(itertools.accumulate(x, min)), 'rolling_min({}) is {}', keep, got)
    need(x == keep, 'rolling_min changed its argument {} to {}', keep, x)
    return len(set(x)) > 2, []


def build(t):
    if isinstance(t, list) and t and t[0] in ('tuple', 'list', 'array', 'gen'):
        kids = [build(k) for k in t[1:]]
        return {'tuple': tuple, 'list': list, 'gen': iter, 'array': list}[t[0]](kids)
    return t


def flat(t):
    if isinstance(t, list) and t and t[0] in ('tuple', 'list', 'array', 'gen'):
        return [v for k in t[1:] for v in flat(k)]
    return [t]


def unrav(c):
    got, want = list(unravel(build(c['tree']))), flat(c['tree'])
    need(len(got) == len(want) and all(type(p) is type(q) and (p == q or p != p) for p, q in zip(got, want)),
         'unravel of {} is {}, not {}', c['tree'], got, want)
    return len(want) > 2, []


def headers(c):
    rows = [[decode(v) for v in r] for r in c['rows']]
    heads = infer_headers(rows[0])
    need(list(heads) == [f'result_{i}' for i in range(len(rows[0]))], 'headers of {} are {}', rows[0], list(heads))
    with E.scratch() as d:
        f = tb.open_file(str(d / 'x.h5'), 'w', driver='H5FD_CORE', driver_core_backing_store=0)
        try:
            t = f.create_table('/', 't', heads)
            need(list(t.colnames) == list(heads), 'columns of {} are in the order {}', rows[0], t.colnames)
            for r in rows:
                row = t.row
                for k, v in zip(heads, r):
                    if v is not None:
                        row[k] = v.encode() if isinstance(v, str) else v
                row.append()
            t.flush()
            for r, saved in zip(rows, t.read()):
                for k, v in zip(heads, r):
                    back = saved[k]
                    if v is None:
                        continue
                    if isinstance(v, str):
                        ok = back.decode('utf8') == v
                    elif isinstance(v, (list, tuple, np.ndarray)):
                        a = np.array(list(v))
                        ok = np.shape(back) == a.shape and ((back == a) | ((back != back) & (a != a))).all()
                    else:
                        ok = back == v or (back != back and v != v)
                    need(ok, 'the value {!r} is read back as {!r} with the columns inferred from {}', v, back, rows[0])
        finally:
            f.close()
    return len(rows[0]) > 1, []


def decode(v):
    k, x = v
    if k == 'np':
        return np.dtype(x[0]).type(x[1])
    if k == 'array':
        return np.array(x)
    if k == 'tuple':
        return tuple(x)
    if k == 'complex':
        return complex(*x)
    return x


UNITS = ['', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']


def memory(c):
    n, digits = c['n'], c['digits']
    s = present_memory(n, digits) if digits is not None else present_memory(n)
    digits = 2 if digits is None else digits
    mt = re.match(r'^(\d+)(?:\.(\d+))?([kMGTPEZY]?)B$', s)
    need(mt, 'present_memory({}) is {!r}', n, s)
    p = UNITS.index(mt.group(3))
    val = float(s[:len(s) - 1 - len(mt.group(3))])
    nd = len(mt.group(2) or '')
    need(nd == (digits if p else 0), 'present_memory({}, {}) has {} digits: {!r}', n, digits, nd, s)
    need(abs(val * 1024 ** p - n) <= 0.5000001 * 10 ** -nd * 1024 ** p, 'present_memory({}, {}) is {!r}', n, digits, s)
    need(p == 0 or n >= 1024 ** p, 'present_memory({}, {}) is {!r}: unit too large', n, digits, s)
    need(n <= 1024 ** (p + 1) * (1 + 1e-12), 'present_memory({}, {}) is {!r}: unit too small', n, digits, s)
    return n > 1024, [mt.group(3) or 'B']


class Boom(BaseException):
    pass


def workdir(c):
    """ Nested changes of directory; files are made where the innermost one says and all are undone, also after errors. """
    old = os.getcwd()
    with E.scratch() as d:
        d = d.resolve()
        os.chdir(str(d))
        try:
            want = []

            def go(ops):
                here = os.getcwd()
                for k, op in enumerate(ops):
                    if op[0] == 'touch':
                        Path(op[1]).touch()
                        want.append(Path(here) / op[1])
                    elif op[0] == 'raise':
                        raise Boom()
                    else:
                        path = Path(here) / op[1] if op[2] == 'abs' else op[1]
                        if op[2] == 'path':
                            path = Path(op[1])
                        try:
                            with WorkInDirectory(path):
                                need(os.getcwd() == str((Path(here) / op[1]).resolve()), 'working in {} instead of {}', os.getcwd(), op[1])
                                go(op[3])
                        except Boom:
                            need(os.getcwd() == here, 'after an error the directory is {} instead of {}', os.getcwd(), here)
                            if not op[4]:
                                raise
                        need(os.getcwd() == here, 'the directory afterwards is {} instead of {}', os.getcwd(), here)
            try:
                go(c['ops'])
            except Boom:
                pass
            need(os.getcwd() == str(d), 'left in {}', os.getcwd())
            have = {p.resolve() for p in d.rglob('*') if p.is_file()}
            need(have == {p.resolve() for p in want}, 'files {} instead of {}', sorted(have), sorted(want))
        finally:
            os.chdir(old)
    return len(want) > 1, []


class Tail(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append((record.name, record.levelname, record.getMessage()))


def split(c):
    """ Log records of several optimizers through SplitOptimizerLogs, compared with what each should hold. """
    base = logging.getLogger('glompo.optimizers')
    fmt = logging.Formatter(c['fmt']) if c['fmt'] else None
    loggers = {}
    before = (base.level, base.propagate)
    with E.scratch() as d:
        path = d / 'a' / 'logs'
        filt = SplitOptimizerLogs(str(path) if c['text_path'] else path, propagate=c['propagate'], formatter=fmt)
        need(path.is_dir(), 'the directory of the logs was not made')
        tail = Tail()
        tail.addFilter(filt)
        tail.setLevel(c['handler_level'])
        base.addHandler(tail)
        base.setLevel(c['level'])
        base.propagate = False
        want, console, first = {}, [], {}
        try:
            for opt, level, msg, err in c['records']:
                name = f'glompo.optimizers.opt{opt}'
                log = loggers.setdefault(name, logging.getLogger(name))
                exc = None
                if err:
                    try:
                        raise ValueError(err)
                    except ValueError as e:
                        exc = e
                log.log(level, 'text %s', msg, exc_info=exc)
                if level < c['level']:
                    continue
                line = f'text {msg}'
                if c['fmt']:
                    line = c['fmt'].replace('%(levelname)s', logging.getLevelName(level)).replace('%(name)s', name).replace(
                        '%(message)s', line)
                if level >= c['handler_level']:
                    first.setdefault(opt, len(want.get(opt, [])))
                    console.append((name, logging.getLevelName(level), f'text {msg}'))
                want.setdefault(opt, []).append((line, err))
            for log in loggers.values():
                for h in log.handlers:
                    h.flush()
            files = {p.name: p.read_text() for p in path.iterdir()}
            got = {}
            for opt in want:
                text = files.pop(f'optimizer_{opt}.log', '')
                body, errors = [], []
                for line in text.splitlines():
                    if line.startswith('ValueError: '):
                        errors.append(line[12:])
                    elif not line.startswith(('Traceback', '  File', '    ')):
                        body.append(line)
                got[opt] = body, errors
            need(not files, 'unexpected files {}', sorted(files))
            missing = False
            for opt, recs in want.items():
                lines = [ln for ln, _ in recs]
                errs = [e for _, e in recs if e]
                if got[opt] == (lines, errs):
                    continue
                k = first.get(opt, len(recs))
                if k and got[opt] == (lines[k:], [e for _, e in recs[k:] if e]):
                    missing = True
                    continue
                need(False, 'the log of optimizer {} holds {} instead of {}', opt, got[opt], (lines, errs))
            need(tail.seen == (console if c['propagate'] else []), 'the handler itself got {} instead of {}', tail.seen,
                 console if c['propagate'] else [])
            if missing:
                raise Known('split-logs-below-level', 'records below the level of the handler before the first one which reaches it '
                                                      'are not in the file of the optimizer')
        finally:
            base.removeHandler(tail)
            base.setLevel(before[0])
            base.propagate = before[1]
            for log in loggers.values():
                for h in list(log.handlers):
                    h.close()
                    log.removeHandler(h)
    return len(want) > 1 and len(c['records']) > 3, ['several' if len(want) > 1 else 'one']


def optional(c):
    """ Functions which need a package. """
    calls = []

    @needs_optional_package(c['package'])
    def f(*a, **k):
        """ doc """
        calls.append((a, k))
        if c['raises'] == 'import':
            raise ModuleNotFoundError('something else')
        if c['raises']:
            raise KeyError('x')
        return c['value']
    present = c['package'] in ('os', 'json', 'xml.dom')
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            out = f(1, b=2)
        except Exception as e:
            need(present and c['raises'] and isinstance(e, ModuleNotFoundError if c['raises'] == 'import' else KeyError),
                 'raised {!r}', e)
        else:
            need(not (present and c['raises']), 'the error of the function itself was swallowed')
            need(out == (c['value'] if present else None), 'returned {!r}', out)
    need(calls == ([((1,), {'b': 2})] if present else []), 'called with {}', calls)
    need(bool(seen) == (not present), '{} warnings', len(seen))
    need(f.__name__ == 'f', 'the name of the function is lost')
    return True, ['absent' if not present else 'present']


def decorated(c):
    log = []

    def deco(fn):
        def w(*a, **k):
            log.append(fn.__name__)
            return fn(*a, **k)
        return w

    ns = {n: (lambda self, n=n: n) for n in c['names']}
    for n, fn in ns.items():
        fn.__name__ = n
    cls = decorate_all_methods(deco)(type('X', (), {**ns, 'attr': 5}))
    x = cls()
    for n in c['names']:
        need(getattr(x, n)() == n, 'method {} gives something else', n)
    need(log == c['names'] and cls.attr == 5, 'called {} of {}', log, c['names'])
    return len(c['names']) > 1, []


def colors(c):
    cmap = glompo_colors()
    cols = [tuple(glompo_colors(k)) for k in c['ids'] if k]
    for k, col in zip([k for k in c['ids'] if k], cols):
        need(len(col) == 4 and all(0 <= v <= 1 for v in col), 'color {} is {}', k, col)
        need(tuple(cmap(k)) == col, 'color {} is {}, in the map {}', k, col, cmap(k))
    return len(cols) > 1, []


KINDS = {f.__name__: f for f in (bounds, dist, rolling, unrav, headers, memory, workdir, split, optional, decorated, colors)}


def run(case):
    nt, tags = KINDS[case['kind']](case)
    return {'ok': True, 'nt': bool(nt), 'tags': [case['kind']] + [f"{case['kind']}-{t}" for t in tags]}
