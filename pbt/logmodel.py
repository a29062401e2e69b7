""" Reference model of the optimization log and the operations applied to it (PyPy side). """
import copy
import datetime
import math
import sys
from pathlib import Path

import numpy as np
import tables as tb

import engine as E
from verdict import need, same
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger

INF = float('inf')
T0 = datetime.datetime(2020, 3, 1, 12, 0, 0)
COLS = {'float': tb.Float64Col, 'int': tb.Int64Col, 'bool': tb.BoolCol, 'str': lambda **k: tb.StringCol(20, **k),
        'vec': lambda **k: tb.Float64Col(shape=2, **k)}
ENDS = ['GloMPO Termination\nHunt Start f=1', 'Optimizer convergence', 'Normal termination (Reason unknown)',
        'Error termination (exitcode 1).', 'Traceback (most recent)', 'Forced GloMPO Termination', 'odd', '']
MARK = ['x', '*', '*', 's', 's', 'x', '', '']


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(i) for i in v.tolist()]
    if isinstance(v, np.generic):
        return plain(v.item())
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    return v


def eq(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(i, j) for i, j in zip(a, b))
    if isinstance(a, list) or isinstance(b, list):
        return False
    if isinstance(a, float) or isinstance(b, float):
        return same(a, b)
    return a == b


class Model:
    def __init__(self, heads, keep):
        self.opts, self.f, self.keep = {}, 0, keep
        self.heads = heads
        self.largest = -INF

    def best(self, o=None):
        """ The earliest of the lowest values. """
        rows = [(r[2], r[0], k, r[1]) for k, d in self.opts.items() if o in (None, k) for r in d['rows']
                if r[2] == r[2] and r[2] < INF]
        if not rows:
            t = self.opts[o]['type'] if o else ''
            return {'opt_id': o or 0, 'x': [], 'fx': INF, 'type': t, 'call_id': 0}
        fx, c, k, x = min(rows, key=lambda r: (r[0], r[1]))
        return {'opt_id': k, 'x': x, 'fx': fx, 'type': self.opts[k]['type'], 'call_id': c}


def extra(kind, n):
    return {'float': n * 0.5 - 1, 'int': -n * 7, 'bool': n % 3 == 0, 'str': f's{n}' + 'ä' * (n % 5 == 4), 'vec': [n + 0.25, -n]}[kind]


def headers(heads, pos):
    d = {}
    for i, (name, kind) in enumerate(heads):
        kw = {'pos': i} if pos else {}
        d[name] = COLS[kind](**kw)
    return d


def columns(heads):
    return [h for h in heads if h[0] != 'fx']


class Subject:
    """ The real log and the model, driven by the same operations. """

    def __init__(self, case, path, file):
        self.case, self.path, self.file = case, path, file
        self.m = Model(case.get('heads') or [], bool(case.get('keep')))
        self.nx = case['n_parms']
        if file:
            self.log = FileLogger(self.nx, 50, self.m.keep)
        else:
            self.log = BaseLogger(self.m.keep, n_parms=self.nx, expected_rows=50)
        self.log.open(path / 'log.h5', 'w', 'first')
        self.checksum = 'first'
        self.saved = []
        self.k = 0
        self.tags = set()

    # ---------------------------------------------------------------------------------------------- operations
    def op(self, op):
        m, log = self.m, self.log
        kind = op[0]
        live = [o for o, d in m.opts.items() if not d['cleared']]
        if kind == 'add':
            o = len(m.opts) + 1
            t = ['Ta', 'Tb', 'Tc'][op[1] % 3]
            t0 = T0 + datetime.timedelta(seconds=len(m.opts) * 61, microseconds=op[1])
            m.opts[o] = {'type': t, 'meta': {'opt_id': o, 'opt_type': t, 't_start': t0}, 'msg': [], 'rows': [],
                         'cleared': False}
            log.add_optimizer(o, t, t0)
        elif kind == 'it' and live:
            o = live[op[1] % len(live)]
            for j in range(op[4] if len(op) > 4 else 1):
                self.k += 1
                x = [float(op[3]) + 0.5 * i - j for i in range(self.nx)]
                fx = op[2] - j if j else op[2]
                ex = [extra(h[1], self.k) for h in columns(m.heads)]
                if not log.has_iter_history(o):
                    need(not m.opts[o]['rows'], 'optimizer {} has {} evaluations but no history', o, len(m.opts[o]['rows']))
                    log.add_iter_history(o, headers(m.heads, self.case.get('pos')))
                m.f += 1
                m.opts[o]['rows'].append((m.f, list(x), fx, ex))
                if math.isfinite(fx) and fx > m.largest:
                    m.largest = fx
                log.put_iteration(IterationResult(o, np.array(x) if self.case.get('array') else x, fx, ex))
        elif kind == 'meta' and m.opts:
            o = 1 + op[1] % len(m.opts)
            key = ['end_cond', 't_stop', 'note'][op[2] % 3]
            val = ENDS[op[3] % len(ENDS)] if key == 'end_cond' else T0 if key == 't_stop' else [1.5, 'a', 3, True][op[3] % 4]
            if self.file or not m.opts[o]['cleared']:
                m.opts[o]['meta'][key] = val
            log.put_metadata(o, key, val)
        elif kind == 'msg' and m.opts:
            o = 1 + op[1] % len(m.opts)
            if self.file or not m.opts[o]['cleared']:
                m.opts[o]['msg'].append(op[2])
            log.put_message(o, op[2])
        elif kind == 'clear' and live:
            o = live[op[1] % len(live)]
            log.clear_cache(o)
            self.forget([o])
        elif kind == 'clearall' and (live or self.file):
            log.clear_cache()
            self.forget(live)
        elif kind == 'flush':
            log.flush(live[op[1] % len(live)] if live and op[1] % 2 else None)
        elif kind == 'ckpt':
            self.checkpoint(op[1])
        elif kind == 'look':
            self.compare()
        self.brief()

    def forget(self, opts):
        if self.m.keep and not self.file:
            return
        for o in opts:
            self.m.opts[o]['cleared'] = True
            self.tags.add('cleared')

    def checkpoint(self, cont):
        self.tags.add('checkpoint')
        d = self.path / f'ck{len(self.saved)}'
        d.mkdir()
        self.log.flush()
        self.log.checkpoint_save(d)
        new = type(self.log).checkpoint_load(d / 'opt_log')
        if self.file:
            self.log.close()
            self.checksum = f'sum{len(self.saved)}'
            new.open(self.path / 'log.h5', 'a', self.checksum)
            self.saved.append(None)
            self.log = new
        else:
            model = copy.deepcopy(self.m)
            if cont:    # Goes on with the restored one, the other must not be touched by this
                self.saved.append((self.log, model))
                self.log = new
            else:
                self.saved.append((new, model))

    # ----------------------------------------------------------------------------------------------- comparison
    def brief(self, log=None, m=None):
        log, m = (self.log, self.m) if m is None else (log, m)
        need(len(log) == m.f, 'the log counts {} evaluations, {} were put in', len(log), m.f)
        need(log.n_optimizers == len(m.opts), 'the log counts {} optimizers, {} were added', log.n_optimizers, len(m.opts))
        need(log.largest_eval == m.largest, 'the largest finite value is {}, the log says {}', m.largest, log.largest_eval)
        need(eq(log.get_best_iter(), m.best()), 'the best iteration is {}, the log says {}', m.best(), log.get_best_iter())

    def compare(self, log=None, m=None):
        log, m = (self.log, self.m) if m is None else (log, m)
        self.brief(log, m)
        heads = [h[0] for h in columns(m.heads)]
        for o, d in m.opts.items():
            need(eq(log.get_best_iter(o), m.best(o)), 'the best iteration of optimizer {} is {}, the log says {}', o,
                 m.best(o), log.get_best_iter(o))
            gone = d['cleared'] and not self.file
            rows = [] if gone else d['rows']
            need(log.len(o) == len(rows), 'optimizer {} has {} evaluations, the log says {}', o, len(rows), log.len(o))
            need(log.has_iter_history(o) == bool(rows), 'has_iter_history of optimizer {} is {} with {} evaluations', o,
                 log.has_iter_history(o), len(rows))
            need((o in log) == (not gone), 'optimizer {} in log: {}', o, o in log)
            want = {'call_id': [r[0] for r in rows], 'x': [r[1] for r in rows], 'fx': [r[2] for r in rows]}
            for i, h in enumerate(heads):
                want[h] = [r[3][i] for r in rows]
            for t, w in want.items():
                got = log.get_history(o, t)
                need(eq(list(got), w), 'history {} of optimizer {} is {}, the log says {}', t, o, w, plain(got))
            for k, v in d['meta'].items():
                try:
                    got = log.get_metadata(o, k)
                except KeyError:
                    need(gone, 'metadata {} of optimizer {} is lost', k, o)
                    continue
                need(not gone, 'metadata of cleared optimizer {} is still there', o)
                need(eq(got, v), 'metadata {} of optimizer {} is {}, the log says {}', k, o, v, got)
            try:
                log.get_metadata(o, 'missing')
            except Exception:
                pass
            else:
                need(False, 'metadata never set has a value')

    def plot(self, log_scale, best):
        """ What the trajectory plot shows. """
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import pyplot as plt
        from matplotlib.figure import Figure
        shown = []
        orig = Figure.savefig

        def savefig(fig, name, *a, **k):
            ax = fig.axes[0]
            shown.append(([(list(q.get_xdata()), list(map(float, q.get_ydata())), q.get_marker()) for q in ax.get_lines()],
                          [t.get_text() for t in ax.get_legend().get_texts()]))
            assert Path(name).name == 'traj.png'
        Figure.savefig = savefig
        try:
            self.log.plot_trajectory(self.path / 'traj.png', log_scale, best)
        finally:
            Figure.savefig = orig
            left = plt.get_fignums()
            plt.close('all')
        need(not left, 'the figure was left open')
        need(len(shown) == 1, 'not one file was saved but {}', len(shown))
        got, legend = shown[0]
        want = []
        for o, d in self.m.opts.items():
            if d['cleared'] and not self.file:
                continue
            ys, low = [], INF
            for r in d['rows']:
                low = min(low, r[2])
                y = low if best else r[2]
                if log_scale:
                    y = math.copysign(1, y) * math.log10(abs(y)) if y else float('nan')
                ys.append(y)
            want.append(([r[0] for r in d['rows']], ys, '.'))
            e = d['meta'].get('end_cond')
            if ys and e is not None:
                want.append(([d['rows'][-1][0]], [ys[-1]], MARK[ENDS.index(e)]))
        close = lambda a, b: len(a) == len(b) and all(same(p, q) or abs(p - q) <= 1e-9 * max(abs(p), abs(q)) for p, q in zip(a, b))  # noqa
        got = [g for g in got if g[2] not in ('', 'None', None)]
        want = [w for w in want if w[2] not in ('',)]
        need(len(got) == len(want) and all(list(map(int, g[0])) == w[0] and close(g[1], w[1]) and g[2] == w[2]
                                           for g, w in zip(got, want)),
             'the trajectories are {}, shown are {}', want, got)
        names = [f"{o}: {d['type']}" for o, d in self.m.opts.items() if not d['cleared'] or self.file]
        need(legend[4:] == names, 'the legend shows {}', legend)

    def finish(self):
        self.compare()
        for log, model in [s for s in self.saved if s]:
            self.compare(log, model)
        self.log.close()
        if self.file:
            check_file(self.path / 'log.h5', self.m, self.checksum)
        elif not self.m.keep:
            need(not any(o in self.log for o in self.m.opts), 'data in memory after close')


def read_file(path):
    out = {'opts': {}}
    with tb.open_file(str(path), 'r') as f:
        out['root'] = {k: f.root._v_attrs[k] for k in f.root._v_attrs._f_list('user')}
        for g in f.iter_nodes('/'):
            name, num = g._v_name.split('_')
            assert name == 'optimizer'
            d = {'attrs': {k: g._v_attrs[k] for k in g._v_attrs._f_list('user')},
                 'msg': [plain(i) for i in g['messages']], 'rows': None, 'cols': None}
            others = set(g._v_children) - {'messages', 'iter_hist'}
            assert not others, others
            if 'iter_hist' in g:
                t = g['iter_hist']
                d['cols'] = list(t.colnames)
                cols = {c: plain(t.col(c)) for c in d['cols']}
                d['rows'] = [[cols[c][i] for c in d['cols']] for i in range(t.nrows)]
            out['opts'][int(num)] = d
    return out


def check_file(path, m, checksum=None, final=True):
    got = read_file(path)
    if checksum:
        need(got['root']['checksum'] == checksum, 'checksum {} instead of {}', got['root']['checksum'], checksum)
    if final:
        for k, v in (('opts_started', len(m.opts)), ('f_counter', m.f), ('best_iter', m.best()), ('max_eval', m.largest)):
            need(eq(got['root'].get(k), v), 'the file says {}={}, it is {}', k, got['root'].get(k), v)
        best = {o: b for o, b in got['root'].get('best_iters', {}).items() if o}
        need(eq(best, {o: m.best(o) for o in m.opts}), 'best_iters in the file are {}', best)
    need(set(got['opts']) == set(m.opts), 'optimizers {} are in the file, it should be {}', sorted(got['opts']), sorted(m.opts))
    names = ['call_id', 'x', 'fx'] + [h[0] for h in columns(m.heads)]
    for o, d in m.opts.items():
        g = got['opts'][o]
        need(eq(g['msg'], d['msg']), 'messages of optimizer {} are {}, in the file {}', o, d['msg'], g['msg'])
        attrs = dict(g['attrs'])
        best = attrs.pop('best_iter', None)
        need(eq(attrs, d['meta']), 'metadata of optimizer {} is {}, in the file {}', o, d['meta'], attrs)
        if d['rows'] and (best is not None or m.best(o)['x']):
            need(eq(best, m.best(o)), 'best_iter of optimizer {} is {}, in the file {}', o, m.best(o), best)
        rows = [[r[0], r[1], r[2], *r[3]] for r in d['rows']]
        need(g['cols'] == (names if rows else None) or (not rows and not g['rows']), 'columns of optimizer {} are {}', o, g['cols'])
        need(eq(g['rows'] or [], rows), 'evaluations of optimizer {} are {}, in the file {}', o, rows, g['rows'])


def run(case, file):
    old = sys.getsizeof
    if case.get('big'):     # Makes the write buffer overflow after a few iterations
        sys.getsizeof = lambda o, *a: 1_500_000
    try:
        with E.scratch() as base, E.quiet():
            s = Subject(case, base, file)
            for op in case['ops']:
                s.op(op)
            fin = all(r[2] == r[2] and abs(r[2]) < INF for d in s.m.opts.values() for r in d['rows'])
            if case.get('plot') and fin:
                s.plot(case['plot'] == 'log', case.get('plot_best'))
                s.tags.add('plot')
            s.finish()
            n = s.m.f
            return {'ok': True, 'nt': n > 2 and len(s.m.opts) > 1 and ('cleared' in s.tags or 'checkpoint' in s.tags),
                    'tags': sorted(s.tags) + (['extras'] if case.get('heads') else []) + (['keep'] if case.get('keep') else [])}
    finally:
        sys.getsizeof = old
