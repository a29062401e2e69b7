""" Setting up a manager. """
import os
import multiprocessing as mp
import warnings
from pathlib import Path

import numpy as np

import engine as E
from verdict import need
from glompo.common.namedtuples import Bound, Result
from glompo.convergence import BaseChecker, KillsAfterConvergence, MaxFuncCalls, MaxKills
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.generators import BaseGenerator, RandomGenerator
from glompo.hunters import BaseHunter, BestUnmoving, EvaluationsUnmoving
from glompo.opt_selectors import CycleSelector

COLD = ('task', 'opt_selector', 'bounds', 'n_parms', 'max_jobs', 'convergence_checker', 'x0_generator', 'killing_conditions',
        'working_dir', 'overwrite_existing', 'hunt_frequency', 'status_frequency', 'summary_files', 'is_log_detailed',
        'split_printstreams', 'incumbent_sharing', 'allow_forced_terminations', 'aggressive_kill', 'end_timeout',
        'proc_backend', 'opts_daemonic', 'checkpoint_control', 'visualisation', 'spawning_opts', 'is_initialised',
        'o_counter', 'f_counter', 'conv_counter', 'hunt_counter', 'last_hunt')


class Gen(BaseGenerator):
    def generate(self, manager):
        return [0.5]


class Callee:
    def __call__(self, x):
        return float(sum(x))

    def method(self, x):
        return 0.0


TASKS = {'lambda': lambda x: 0.0, 'object': Callee(), 'method': Callee().method, 'class': Callee, 'builtin': sum}
BAD_TASK = {'none': None, 'number': 3, 'text': 'sum'}
BAD_SEL = {'none': None, 'class': CycleSelector, 'opt': E.Scripted, 'list': [E.Scripted]}
BAD_PLUG = {'class': {'convergence_checker': MaxKills, 'x0_generator': RandomGenerator, 'killing_conditions': BestUnmoving},
            'text': dict.fromkeys(('convergence_checker', 'x0_generator', 'killing_conditions'), 'MaxKills(3)'),
            'call': dict.fromkeys(('convergence_checker', 'x0_generator', 'killing_conditions'), len),
            'swap': {'convergence_checker': EvaluationsUnmoving(10), 'x0_generator': MaxKills(2), 'killing_conditions': MaxKills(2)}}
NOT_CONTROL = {'dict': {'keep_past': 1}, 'true': True, 'class': CheckpointingControl}


def bounds_of(kind, pairs):
    if kind == 'array':
        return np.array(pairs)
    if kind == 'tuples':
        return tuple(tuple(p) for p in pairs)
    if kind == 'bound':
        return [Bound(*p) for p in pairs]
    return [list(p) for p in pairs]


class Args:
    """ The arguments described by a case and what the manager must make of them. """

    def __init__(self, a, d):
        self.err, self.warn = set(), False
        kw, want = {}, {}
        kw['task'] = TASKS.get(a['task'], BAD_TASK.get(a['task']))
        if a['task'] not in TASKS:
            self.err.add(TypeError)
        want['task'] = kw['task']
        kw['opt_selector'] = CycleSelector(E.Scripted) if a['sel'] == 'ok' else BAD_SEL[a['sel']]
        if a['sel'] != 'ok':
            self.err.add(TypeError)
        want['opt_selector'] = kw['opt_selector']
        kw['bounds'] = bounds_of(a['bkind'], a['bounds'])
        if any(not lo < hi or abs(lo) == float('inf') or abs(hi) == float('inf') for lo, hi in a['bounds']):
            self.err.add(ValueError)
        want['n_parms'] = len(a['bounds'])
        opt = a['opt']
        want['max_jobs'] = mp.cpu_count() - 1
        if 'max_jobs' in opt:
            kw['max_jobs'] = opt['max_jobs']
            if opt['max_jobs'] is None:
                pass
            elif isinstance(opt['max_jobs'], int):
                want['max_jobs'] = opt['max_jobs']
                if opt['max_jobs'] < 0:
                    self.err.add(ValueError)
            else:
                self.err.add(TypeError)
        good = {'convergence_checker': MaxFuncCalls(77) | MaxKills(3), 'x0_generator': Gen(),
                'killing_conditions': EvaluationsUnmoving(10) & BestUnmoving(5)}
        for k in good:
            if k in opt:
                v = {'none': None, 'ok': good[k]}.get(opt[k]) if opt[k] in ('none', 'ok') else BAD_PLUG[opt[k]][k]
                kw[k] = v
                if opt[k] not in ('none', 'ok'):
                    self.err.add(TypeError)
                if v is not None:
                    want[k] = v
        want.setdefault('killing_conditions', None)
        self.dflt_checker, self.dflt_gen = 'convergence_checker' not in want, 'x0_generator' not in want
        # What is given comes back as it is
        plain = {'overwrite_existing': ('overwrite_existing', False), 'hunt_frequency': ('hunt_frequency', 100),
                 'summary_files': ('summary_files', 0), 'is_log_detailed': ('is_log_detailed', False),
                 'split_printstreams': ('split_printstreams', True), 'share_best_solutions': ('incumbent_sharing', False),
                 'aggressive_kill': ('aggressive_kill', False)}
        for k, (attr, dflt) in plain.items():
            if k in opt:
                kw[k] = opt[k]
            want[attr] = opt.get(k, dflt)
        if 'status_frequency' in opt:
            kw['status_frequency'] = opt['status_frequency']
        want['status_frequency'] = int(opt.get('status_frequency', 600))
        if 'force' in opt:
            kw['force_terminations_after'] = opt['force']
        want['allow_forced_terminations'] = opt.get('force', -1) > 0
        want['proc_backend'], want['opts_daemonic'] = True, True
        if 'backend' in opt:
            kw['backend'] = opt['backend']
            if opt['backend'] == 'threads':
                want['proc_backend'] = False
            elif opt['backend'] == 'processes_forced':
                want['opts_daemonic'] = False
            elif opt['backend'] != 'processes':
                self.warn = True
        if 'end_timeout' in opt:
            kw['end_timeout'] = opt['end_timeout']
        want['end_timeout'] = opt.get('end_timeout') or (10 if want['proc_backend'] else None)
        want['checkpoint_control'] = None
        if 'control' in opt:
            if opt['control'] == 'ok':
                kw['checkpoint_control'] = want['checkpoint_control'] = CheckpointingControl(checkpointing_dir=d / 'chk')
            elif opt['control'] == 'none':
                kw['checkpoint_control'] = None
            else:
                kw['checkpoint_control'] = NOT_CONTROL[opt['control']]
        want['working_dir'] = Path(os.getcwd())
        if 'wd' in opt:
            kind, name = opt['wd']
            if kind == 'rel':
                kw['working_dir'], want['working_dir'] = name, d / 'cwd' / name
            elif kind == 'relpath':
                kw['working_dir'], want['working_dir'] = Path(name), d / 'cwd' / name
            elif kind == 'abs':
                kw['working_dir'], want['working_dir'] = str(d / name), d / name
            elif kind == 'up':
                kw['working_dir'], want['working_dir'] = Path('..') / name, d / name
            else:
                kw['working_dir'] = {'number': 7, 'list': ['a']}[name]
                self.warn = True
        self.kw, self.want = kw, want
        self.pairs = [tuple(p) for p in a['bounds']]

    def check(self, m, what):
        for k, v in self.want.items():
            got = getattr(m, k)
            if k in ('working_dir',):
                need(Path(got) == Path(v).resolve() and Path(got).is_absolute(), '{}: working_dir is {!r}, not {!r}', what, got, v)
            elif isinstance(v, (bool, int, float, type(None))) and k != 'task':
                need(got == v and (v is None) == (got is None), '{}: {} is {!r}, not {!r} (arguments {})', what, k, got, v, self.kw)
            else:
                need(got is v, '{}: {} is {!r}, not what was given: {!r}', what, k, got, v)
        need(m.is_initialised is True, '{}: not initialised', what)
        need([tuple(b) for b in m.bounds] == self.pairs and all(isinstance(b, Bound) for b in m.bounds),
             '{}: bounds are {}, not {}', what, m.bounds, self.pairs)
        if self.dflt_checker:
            c = m.convergence_checker
            need(type(c) is KillsAfterConvergence and (c.n_killed, c.n_converged) == (0, 1), '{}: default checker is {}', what, c)
        need(isinstance(m.x0_generator, BaseGenerator) and isinstance(m.convergence_checker, BaseChecker), '{}: plug-ins', what)
        if self.dflt_gen:
            need(type(m.x0_generator) is RandomGenerator, '{}: default generator is {}', what, m.x0_generator)
            x = m.x0_generator.generate(m)
            need(len(x) == len(self.pairs) and all(lo <= v <= hi for v, (lo, hi) in zip(x, self.pairs)),
                 '{}: default generator gave {} for {}', what, x, self.pairs)
        need(m.killing_conditions is None or isinstance(m.killing_conditions, BaseHunter), '{}: hunters', what)
        need(type(m.opt_log) is (FileLogger if self.want['summary_files'] > 2 else BaseLogger), '{}: log {} for summary_files={}',
             what, type(m.opt_log), self.want['summary_files'])
        for k in ('o_counter', 'f_counter', 'conv_counter', 'hunt_counter', 'last_hunt'):
            need(getattr(m, k) == 0, '{}: {} is {}', what, k, getattr(m, k))
        need(not m.dt_starts and not m.dt_ends and m.t_used == 0 and not m.checkpoint_history, '{}: has a history', what)
        need(m.spawning_opts is True, '{}: may not start optimizers', what)


def state(m):
    return {k: getattr(m, k) for k in COLD if k != 'bounds'}


def tree(d):
    return sorted(str(p.relative_to(d)) for p in d.rglob('*'))


def attempt(m, args, what, via_new=False):
    """ Returns the manager set up, or None if it refused. """
    with warnings.catch_warnings(record=True) as seen:
        try:
            if via_new:
                m = GloMPOManager.new_manager(**args.kw)
            else:
                out = m.setup(**args.kw)
                need(out is None, 'setup returned {!r}', out)
        except Exception as e:
            need(args.err, '{}: valid arguments {} were refused: {!r}', what, args.kw, e)
            need(isinstance(e, tuple(args.err)), '{}: {!r} instead of {}', what, e, args.err)
            return None
    need(not args.err, '{}: invalid arguments {} were accepted', what, args.kw)
    if args.warn:
        need(seen, '{}: no warning for {}', what, args.kw)
    return m


def run(case):
    E.use_fake_manager()
    E.RUN = None
    old = os.getcwd()
    with E.scratch() as d:
        d = d.resolve()
        (d / 'cwd').mkdir()
        (d / 'other').mkdir()
        try:
            os.chdir(str(d / 'cwd'))
            m = GloMPOManager()
            need(m.is_initialised is False, 'a new manager says it is initialised')
            if case['start_early']:
                with warnings.catch_warnings(record=True) as seen:
                    res = m.start_manager()
                need(isinstance(res, Result) and list(res.x) == [] and res.fx == float('inf'),
                     'start_manager without setup returned {!r}', res)
                need(seen, 'start_manager without setup: no warning')
                need(m.is_initialised is False, 'initialised by starting it')
            refused = 0
            for k, a in enumerate(case['attempts']):
                args = Args(a, d)
                what = f'attempt {k}'
                got = attempt(m, args, what, via_new=case['new'] and k == 0)
                if got is None:
                    need(m.is_initialised is False, '{}: refused, but initialised', what)
                    refused += 1
                    continue
                m = got
                break
            else:
                return {'ok': True, 'nt': refused > 0, 'tags': ['refused']}
            args.check(m, what)
            need(tree(d) == ['cwd', 'other'], 'setup alone made {}', tree(d))
            # The user goes on with what was given
            b = args.kw['bounds']
            if isinstance(b, np.ndarray):
                b[:] = 99
            elif isinstance(b, list):
                b[0] = [98, 99]
                b.append([1, 2])
            os.chdir(str(d / 'other'))
            args.check(m, 'after changing the list of bounds and the directory')
            before = state(m)
            log = m.opt_log
            for a in case['again']:
                a2 = Args(a, d)
                with warnings.catch_warnings(record=True) as seen:
                    m.setup(**a2.kw)
                need(seen, 'second setup: no warning')
                now = state(m)
                diff = {k: (before[k], now[k]) for k in before if before[k] is not now[k] and before[k] != now[k]}
                need(not diff and m.opt_log is log, 'second setup changed {}', diff)
                args.check(m, 'second setup')
            if case['load']:
                with warnings.catch_warnings(record=True) as seen:
                    m.load_checkpoint(d / 'nothing.tar.gz', max_jobs=999)
                need(seen, 'load_checkpoint of an initialised manager: no warning')
                args.check(m, 'load_checkpoint of an initialised manager')
            n_opt = len(case['attempts'][k]['opt'])
            return {'ok': True, 'nt': n_opt >= 3 or refused > 0 or bool(case['again']),
                    'tags': ['accepted'] + ['after-refusal'] * (refused > 0) + ['again'] * bool(case['again'])}
        finally:
            os.chdir(old)
