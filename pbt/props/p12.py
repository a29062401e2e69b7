""" Log file: of the logger alone, of complete sessions, and over several sessions. """
import shutil

import numpy as np
import tables as tb

import ckpt
import e2e
import engine as E
import logmodel
from logmodel import eq
from verdict import need
from ._e2e import tags as run_tags

OWN = ('Terminated', 'Force terminated', 'Traceback')   # Messages of the manager, and of BaseOptimizer


class no_pictures:
    """ Saving pictures takes most of the time and is the subject of P22. """

    def __enter__(self):
        from matplotlib.figure import Figure
        self.cls, self.orig = Figure, Figure.savefig
        Figure.savefig = lambda *a, **k: None

    def __exit__(self, *a):
        self.cls.savefig = self.orig


def names(case):
    if not case.get('detailed') or not case.get('extras'):
        return []
    return [h for h in case.get('heads') or [f'result_{i}' for i in range(case['extras'])] if h != 'fx']


def check(case, path, evals, lens, metas, msgs, f0=0, final=None, rows_from=0, opts=None):
    """ evals: what the optimizers did. lens: evaluations recorded for each. """
    got = logmodel.read_file(path)
    have = set(got['opts'])
    if opts is not None:
        need(set(opts) == have, 'the log file describes optimizers {}, {} were started', sorted(have), sorted(opts))
    heads = ['call_id', 'x', 'fx'] + names(case)
    ids = []
    for o, g in got['opts'].items():
        rows = g['rows'] or []
        if rows:
            need(g['cols'] == heads, 'columns of optimizer {} are {}, expected {}', o, g['cols'], heads)
        skip = max(0, lens[o] - len(rows)) if rows_from else 0
        need(len(rows) + skip == lens[o], 'optimizer {} has {} evaluations in the file, {} were accepted', o, len(rows), lens[o])
        truth = evals.get(o, [])
        for i, r in enumerate(rows):
            x, fx = truth[i + skip]
            want = [r[0], x, fx] + [fx * (j + 2) + 0.5 for j in range(len(heads) - 3)]
            need(eq(r, want), 'row {} of optimizer {} is {}, the evaluation was {}', i, o, r, want)
            ids.append(r[0])
            need(r[0] > rows_from, 'row {} of optimizer {} was made before this file', r, o)
        attrs = g['attrs']
        for k, v in metas[o].items():
            need(eq(attrs.get(k), v), '{} of optimizer {} is {} in the file, it should be {}', k, o, attrs.get(k), v)
        extra = set(attrs) - {'opt_id', 'opt_type', 't_start', 't_stop', 'end_cond', 'best_iter'}
        need(not extra, 'optimizer {} has attributes {}', o, extra)
        usable = [r for r in rows if r[2] == r[2] and r[2] < float('inf')]
        if usable and not rows_from:
            b = min(usable, key=lambda r: (r[2], r[0]))
            bi = attrs.get('best_iter')
            need(bi is not None and eq([bi['call_id'], bi['x'], bi['fx']], b[:3]) and bi['opt_id'] == o,
                 'best_iter of optimizer {} is {}, its best row {}', o, bi, b)
        mine = [m for m in g['msg'] if not m.startswith(OWN)]
        sent = msgs.get(o, [])
        need(mine == sent[:len(mine)], 'optimizer {} sent {}, the file has {}', o, sent, mine)
        if metas[o].get('end_cond') == 'Optimizer convergence':
            need(len(mine) == len(sent), 'optimizer {} ended by itself after sending {}, the file has {}', o, sent, mine)
    if final is not None:
        m, r = final
        need(sorted(ids) == list(range(rows_from + 1, m.f_counter + 1)), 'call ids in the file are {} ({} evaluations)',
             sorted(ids), m.f_counter)
        root = got['root']
        for k, v in (('n_evals', m.f_counter), ('n_opts_started', m.o_counter), ('n_opts_killed', len(m.hunt_victims)),
                     ('n_opts_conv', m.conv_counter), ('n_hunts', m.hunt_counter), ('f_counter', m.f_counter),
                     ('bounds', [list(map(float, b)) for b in m.bounds]), ('task', 'Task')):
            need(eq(root.get(k), v), 'the file says {}={}, it is {}', k, root.get(k), v)
        need((r.stats or {}).get('end_cond') in ('GloMPO Crash', 'User Interrupt') or
             root.get('exit_reason') == (r.stats or {}).get('end_cond'), 'the file gives {} as exit reason, the result {}',
             root.get('exit_reason'), (r.stats or {}).get('end_cond'))
        b = root['best_iter']
        if r.x:
            need(eq(b['fx'], float(r.fx)) and eq(b['x'], [float(i) for i in r.x]) and b['opt_id'] == r.origin['opt_id'],
                 'the best iteration in the file is {}, the result {}', b, r)
    return got


def sent(run):
    d = {}
    for e in run.of('msg'):
        if e[2] == 9:
            d.setdefault(e[1], []).append('' if e[3] is None else e[3])
    return d


def switch(case, base):
    """ Another kind of log is wanted when resuming. """
    case['summary'], to = (3, case['to']) if case['to'] < 3 else (case['from'], 3)
    case['keep_log'] = case.get('keep', False)
    out, r, m, wd, cdir = ckpt.first(case, base)
    e2e.base(case, out, r)
    t = run_tags(case, out, r) + ['switch']
    if not r.snaps:
        return {'ok': True, 'nt': False, 'tags': t}
    snap = ckpt.choose(r.snaps, case['pick'])
    stop2 = case.get('stop2') or {}
    chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
    out2, run2, m2 = ckpt.second(case, snap, r, base, convergence_checker=chk, summary_files=to)
    if m2.converged and not run2.obs:
        return {'ok': True, 'nt': False, 'tags': t}
    e2e.base(case, out2, run2)
    e2e.no_spurious_crash(case, out2, run2)
    own = dict(run2.evals)
    f0 = snap['counters']['f_counter']
    need(len(m2.opt_log) == m2.f_counter, 'the log counts {} evaluations of {}', len(m2.opt_log), m2.f_counter)
    need(m2.f_counter - f0 <= sum(map(len, own.values())), '{} evaluations, {} new', m2.f_counter - f0, own)
    if to == 3:
        got = logmodel.read_file(wd / 'glompo_log.h5')
        ids = []
        for o, g in got['opts'].items():
            n0 = snap['saved'].get(o, 0)
            for i, row in enumerate(g['rows'] or []):
                x, fx = own[o][i]
                want = [x, fx] + [fx * (j + 2) + 0.5 for j in range(len(names(case)))]
                need(eq(row[1:], want), 'row {} of optimizer {} (resumed after {}) is {}', i, o, n0, row)
                ids.append(row[0])
        need(sorted(ids) == list(range(f0 + 1, m2.f_counter + 1)), 'call ids {}', sorted(ids))
    return {'ok': True, 'nt': bool(own), 'tags': t}


def session(case, base):
    case['summary'] = 3
    out, r, m, wd, cdir = ckpt.first(case, base)
    e2e.base(case, out, r)
    if not e2e.crash_expected(case):
        e2e.no_spurious_crash(case, out, r)
    lens = {o: h['len'] for o, h in r.hist.items()}
    metas = {o: {k: v for k, v in h['meta'].items()} for o, h in r.hist.items()}
    file = wd / 'glompo_log.h5'
    need(file.exists(), 'there is no log file')
    check(case, file, r.evals, lens, metas, sent(r), final=(m, out.result), opts=range(1, m.o_counter + 1))
    e2e.check_accounting(case, out, r)
    return out, r, m, wd, file, lens, metas


def run(case):
    if 'ops' in case:
        return logmodel.run(case, True)
    with E.scratch() as base, no_pictures():
        if not case.get('ckpt'):
            case['ckpt'] = {}
        if case.get('mode') == 'switch':
            return switch(case, base)
        copies = {}

        def keep(run, m, when, info):
            file = base / 'work' / 'glompo_log.h5'
            if when == 'after' and info['error'] is None and info['new'] and file.exists():
                dst = base / f'h5_{len(run.snaps)}.h5'
                shutil.copy(file, dst)
                copies[len(run.snaps) - 1] = dst
        old = ckpt.prepare
        ckpt.prepare = lambda c, wd, run: (old(c, wd, run), run.ckpt_hooks.append(keep))
        try:
            out, r, m, wd, file, lens, metas = session(case, base)
        finally:
            ckpt.prepare = old
        t = run_tags(case, out, r)
        if not r.snaps or not case.get('mode'):
            return {'ok': True, 'nt': m.f_counter > 2 and m.o_counter > 1, 'tags': t + ['one-session']}
        msgs1 = sent(r)
        for k, dst in copies.items():   # What is left if the session dies right after a checkpoint
            s = r.snaps[k]
            check(case, dst, s['evals'], {o: d['len'] for o, d in s['log']['opts'].items()},
                  {o: {'end_cond': d['end_cond']} if d['end_cond'] else {} for o, d in s['log']['opts'].items()}, msgs1,
                  opts=s['log']['opts'])
        snap = ckpt.choose(r.snaps, case['pick'])
        k = r.snaps.index(snap)
        mode = case['mode']
        if mode == 'killed':
            file.unlink()
            if k in copies:
                shutil.copy(copies[k], file)
            else:
                mode = 'missing'
        elif mode == 'missing':
            file.unlink()
        elif mode == 'foreign':
            with tb.open_file(str(file), 'a') as f:
                f.root._v_attrs.checksum = 'somethingelse'
        f0 = snap['counters']['f_counter']
        before = logmodel.read_file(file) if file.exists() else None
        stop2 = case.get('stop2') or {}
        chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
        out2, run2, m2 = ckpt.second(case, snap, r, base, convergence_checker=chk)
        t.append(mode)
        if m2.converged and not run2.obs:
            return {'ok': True, 'nt': False, 'tags': t + ['no-second-session']}
        if mode == 'foreign':
            need(isinstance(out2.error, KeyError), 'the log file of another optimization was accepted: {}', out2.error)
            need(logmodel.eq(_flat(logmodel.read_file(file)), _flat(before)), 'the log file of another optimization was changed')
            need(not run2.own_evals if hasattr(run2, 'own_evals') else not run2.evals, 'the task was evaluated')
            return {'ok': True, 'nt': True, 'tags': t}
        e2e.base(case, out2, run2)
        e2e.no_spurious_crash(case, out2, run2)
        warned = [w for w in out2.warnings if 'log file' in w.lower()]
        if mode == 'missing':
            need(warned, 'the log file is missing, no warning was given')
        elif mode == 'closed' and m.f_counter > f0:
            need(warned, 'evaluations {}..{} were removed from the log file without a warning', f0 + 1, m.f_counter)
        elif mode == 'killed':
            need(not warned, 'warnings about a matching file: {}', warned)
        msgs2 = sent(run2)
        ckpt.merge(snap, r, run2)
        lens2 = {o: h['len'] for o, h in run2.hist.items()}
        metas2 = {o: dict(h['meta']) for o, h in run2.hist.items()}
        msgs = {}
        for o in lens2:
            head = []
            if k in copies:
                g = logmodel.read_file(copies[k])['opts'].get(o)
                head = [q for q in g['msg'] if not q.startswith(OWN)] if g else []
            elif k not in copies and o in msgs1 and mode == 'missing':
                head = []
            msgs[o] = head + msgs2.get(o, [])
        new = range(1, m2.o_counter + 1)
        got = check(case, file, run2.evals, lens2, metas2, msgs, final=(m2, out2.result),
                    rows_from=f0 if mode == 'missing' else 0, opts=new)
        for o, h in run2.hist.items():   # The rows are those which were there, and those made since
            g = got['opts'][o]
            ids = [q[0] for q in g['rows'] or []]
            need(ids == h['call_id'][len(h['call_id']) - len(ids):], 'call ids of optimizer {} are {}, in the file {}', o,
                 h['call_id'], ids)
        return {'ok': True, 'nt': bool(run2.own_evals), 'tags': t}


def _flat(d):
    return [[sorted(map(str, d['root'].items()))], [[o, g['msg'], g['rows'], g['cols'], sorted(map(str, g['attrs'].items()))]
                                                    for o, g in sorted(d['opts'].items())]]
