""" Built-in convergence conditions. """
import datetime
import time

import engine as E
from verdict import need
from glompo.common.namedtuples import Result
from glompo.convergence import (KillsAfterConvergence, MaxFuncCalls, MaxKills, MaxOptsStarted, MaxSeconds, NOptConverged,
                                TargetCost)
from glompo.core.manager import GloMPOManager


def make(name, a):
    return {'fmax': lambda: MaxFuncCalls(a['n']), 'omax': lambda: MaxOptsStarted(a['n']), 'nconv': lambda: NOptConverged(a['n']),
            'nkills': lambda: MaxKills(a['n']), 'target': lambda: TargetCost(a['target'], a['atol']),
            'target0': lambda: TargetCost(a['target']),
            'after': lambda: KillsAfterConvergence(a['n'], a['m']),
            'session': lambda: MaxSeconds(session_max=a['t']), 'overall': lambda: MaxSeconds(overall_max=a['t'])}[name]()


def sessions(case):
    """ MaxSeconds over an optimization made of several sessions, with a checkpoint after each. """
    base = {'scripts': [{'ops': [['e', 1.0]], 'workers': 1}], 'max_jobs': 1, 'max_opts': 1, 'ckpt': {}}
    limit = case['t']
    with E.scratch() as d:
        (d / 'w').mkdir()
        ctl = E.CheckpointingControl(checkpointing_dir=d / 'c', naming_format='c%(count)')
        E.set_task_kind(None)
        m, _ = E.new_run(base, d / 'w', extra={'checkpoint_control': ctl})
        E.RUN = None
        used, flips = 0.0, set()
        for k, (gap, dur) in enumerate(case['periods']):
            now = datetime.datetime.now()
            m.dt_starts.append(now - datetime.timedelta(seconds=dur))
            # The sessions before it lie further back
            shift = datetime.timedelta(seconds=gap + dur)
            for lst in (m.dt_starts, m.dt_ends):
                for i in range(k):
                    lst[i] -= shift
            with E.quiet():
                m.checkpoint()
            used += dur
            m2 = GloMPOManager()
            path = sorted((d / 'c').iterdir())[-1]
            with E.quiet():
                m2.load_checkpoint(path, convergence_checker=MaxSeconds(overall_max=limit))
            need(len(m2.dt_starts) == len(m2.dt_ends) == k + 1, 'the {} sessions are recorded as {} to {}', k + 1, m2.dt_starts, m2.dt_ends)
            need(abs(m2.t_used - used) < 5, 'after sessions of {} s the time used is {} s', case['periods'], m2.t_used)
            need(bool(m2.converged) == (used >= limit), 'after sessions of {} s, {} is {} when loaded', case['periods'][:k + 1],
                 m2.convergence_checker, m2.converged)
            for el in case['elapsed']:
                m2.t_start = time.time() - el
                for chk, want in ((MaxSeconds(overall_max=limit), used + el >= limit), (MaxSeconds(session_max=limit), el >= limit)):
                    got = chk(m2)
                    need(bool(got) == want, 'after sessions of {} s and {} s in this one, {} is {}', case['periods'][:k + 1], el, chk, got)
                    flips.add(want)
            m = m2
            m.t_start = None
            m.convergence_checker = MaxFuncCalls(10)
        return {'ok': True, 'nt': len(flips) == 2 and len(case['periods']) > 1, 'tags': ['sessions']}


def run(case):
    if case.get('periods'):
        return sessions(case)
    name, a = case['checker'], case['args']
    c = make(name, a)
    E.use_fake_manager()
    m = GloMPOManager()
    kill_base = None
    flips = set()
    need(c.last_result is None, 'a result is reported before any evaluation')
    for s in case['history']:
        m.f_counter, m.o_counter, m.conv_counter = s['f'], s['o'], s['conv']
        m.hunt_victims = {i + 1: 0.0 for i in range(s['kills'])} if isinstance(m.hunt_victims, dict) else set(range(1, s['kills'] + 1))
        if s['fx'] == 'none':
            m.result = Result(None, None, None, None)
        else:
            m.result = Result([1.0], s['fx'], {}, {'opt_id': 1})
        m.t_start = None if s['t'] is None else time.time() - s['t']
        m.t_used = s['used']
        el = 0 if s['t'] is None else s['t']
        if kill_base is None and s['conv'] >= a['m']:
            kill_base = s['kills']
        if name in ('target', 'target0'):
            lim = a['target'] + (a['atol'] if name == 'target' else 1e-6)
            want = s['fx'] != 'none' and s['fx'] <= lim
        else:
            want = {'fmax': s['f'] >= a['n'], 'omax': s['o'] >= a['n'], 'nconv': s['conv'] >= a['n'],
                    'nkills': s['kills'] >= a['n'],
                    'after': kill_base is not None and s['kills'] - kill_base >= a['n'],
                    'session': el >= a['t'], 'overall': el + s['used'] >= a['t']}[name]
        got = c(m)
        need(bool(got) == want, '{} is {} in state {}, it should be {}', c, got, s, want)
        need(bool(c.last_result) == want, '{} shows {} after {}', c, c.last_result, got)
        need(str(bool(want)) in c.str_with_result(), 'printed as {}', c.str_with_result())
        flips.add(want)
    for kw in ({}, {'session_max': 1.0, 'overall_max': 1.0}):
        try:
            MaxSeconds(**kw)
        except Exception:
            continue
        need(False, 'MaxSeconds({}) was accepted', kw)
    return {'ok': True, 'nt': len(flips) == 2, 'tags': [name]}
