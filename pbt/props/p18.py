""" Selectors and spawn control. """
import copy
import random

import numpy as np

import engine as E
from verdict import need
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger
from glompo.opt_selectors import BaseSelector, ChainSelector, CycleSelector, RandomSelector
from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop
from glompo.optimizers.baseoptimizer import BaseOptimizer
from props.p17 import binomial


class A(BaseOptimizer):
    def minimize(self, *a, **k):
        pass

    def callstop(self, *a):
        pass


class B(A):
    pass


class C(A):
    pass


CLS = {'A': A, 'B': B, 'C': C}


class Other:
    pass


class Spawn:
    """ Answers as told. """

    def __init__(self):
        self.answer, self.calls = True, []

    def __call__(self, manager):
        self.calls.append(manager)
        return self.answer


def items(opts):
    """ What the user passes and what should be made of it. """
    given, want = [], []
    for o in opts:
        init = None if o['init'] is None else dict(o['init'])
        call = None if o['call'] is None else dict(o['call'])
        if o['form'] == 'class':
            given.append(CLS[o['cls']])
            want.append((CLS[o['cls']], {'workers': 1}, {}))
        else:
            given.append((CLS[o['cls']], init, call))
            want.append((CLS[o['cls']], {'workers': 1, **(init or {})}, call or {}))
    return given, want


def run(case):
    if case['kind'] == 'reject':
        return reject(case)
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    E.use_fake_manager()
    m = GloMPOManager()
    log = BaseLogger(False)
    given, want = items(case['opts'])
    kept = copy.deepcopy(given)
    sp = case['spawn']
    custom = Spawn()
    allow = {'none': None, 'custom': custom, 'iter': IterSpawnStop(sp[1]), 'nopt': NOptimizersSpawnStop(sp[1])}[sp[0]]
    kw = {} if allow is None and case['seed'] % 2 else {'allow_spawn': allow}
    n = len(want)
    if case['kind'] == 'chain':
        th = list(case['thresholds'])[:n - (0 if case['last'] else 1)]
        th0 = list(th)
        s = ChainSelector(*given, fcall_thresholds=th, **kw)
    elif case['kind'] == 'cycle':
        s = CycleSelector(*given, **kw)
    else:
        s = RandomSelector(*given, **kw)
    need(isinstance(s, BaseSelector), 'not a selector')
    used = {o['cls'] for o in case['opts']}
    for k, cls in CLS.items():
        need((cls in s) == (k in used), '"{} in selector" is {} for a selector of {}', k, cls in s, used)
    need(list(s.avail_opts) == want, 'the options {} were read as {}', given, s.avail_opts)
    pos, stages, kinds = 0, set(), set()
    for step in case['steps']:
        m.f_counter, m.o_counter = step['f'], step['o']
        custom.answer = step['ok']
        allowed = {'none': True, 'custom': step['ok'], 'iter': step['f'] < sp[1], 'nopt': step['o'] < sp[1]}[sp[0]]
        slots = step['slots']
        if case['kind'] == 'random' and allowed:
            viable = [i for i, w in enumerate(want) if w[1]['workers'] <= slots]
            groups = {}
            for i in viable:
                groups.setdefault(repr(want[i]), []).append(i)
            counts = dict.fromkeys(groups, 0)
            last = 0
            for _ in range(step['draws']):
                r = s.select_optimizer(m, log, slots)
                if not viable:
                    need(r is None, 'nothing fits into {} slots but {} was selected from {}', slots, r, want)
                    kinds.add('none')
                    break
                need(r is not None and r is not False and repr(tuple(r)) in groups, '{} was selected with {} slots from {}', r, slots, want)
                counts[repr(tuple(r))] += 1
                last += 1
            if viable and len(groups) > 1 and last > 30:
                for k, ids in groups.items():
                    binomial(counts[k], last, len(ids) / len(viable), f'selections of {k} among {sorted(groups)}')
            kinds.add('some')
        else:
            custom.calls.clear()
            r = s.select_optimizer(m, log, slots)
            if not allowed:
                need(r is False, 'spawning is not allowed but {} was selected', r)
                kinds.add('stop')
                continue
            if sp[0] == 'custom':
                need(custom.calls and all(q is m for q in custom.calls), 'allow_spawn was called with {}', custom.calls)
            if case['kind'] == 'chain':
                # Evaluations never decrease in the histories generated
                pos = 0
                while pos < len(th0) and step['f'] >= th0[pos]:
                    pos += 1
                stages.add(pos)
                if pos >= n:
                    need(r is False, '{} evaluations are beyond the last threshold of {} but {} was selected', step['f'], th0, r)
                    kinds.add('stop')
                    continue
                w = want[pos]
            else:
                w = want[pos % n]
            if w[1]['workers'] > slots:
                need(r is None, '{} was selected although the next in turn, {}, does not fit into {} slots', r, w, slots)
                kinds.add('none')
                continue
            need(r is not None and r is not False and tuple(r) == w, '{} was selected instead of {} (of {}) with {} slots after {} '
                 'evaluations', r, w, want, slots, step['f'])
            kinds.add('some')
            if case['kind'] == 'cycle':
                pos += 1
                stages.add(pos)
    need(given == kept, 'the options of the user changed from {} to {}', kept, given)
    if case['kind'] == 'chain':
        need(th == th0, 'the thresholds of the user changed from {} to {}', th0, th)
    return {'ok': True, 'nt': len(kinds) > 1 or len(stages) > 1, 'tags': [case['kind'], sp[0]] + sorted(kinds)}


def reject(case):
    good = [A, (B, None, None)]
    bad = {'instance': Other(), 'class': Other, 'pair': (A, {}), 'four': (A, {}, {}, {}), 'init': (A, 3, None), 'call': (A, None, [1]),
           'other': (Other, {}, {}), 'none': None, 'int': 5, 'list': [A, {}, {}]}[case['bad']]
    opts = list(good)
    opts.insert(case['where'], bad)
    for make in (lambda: CycleSelector(*opts), lambda: RandomSelector(*opts), lambda: ChainSelector(*opts, fcall_thresholds=[1, 2])):
        try:
            s = make()
        except (ValueError, TypeError):
            continue
        need(False, 'the option {} was accepted: {}', bad, s.avail_opts)
    for th in ([], [1], [1, 2, 3, 4]):
        try:
            ChainSelector(A, B, C, fcall_thresholds=th)
        except Exception:
            continue
        need(False, 'thresholds {} were accepted for 3 optimizers', th)
    ChainSelector(A, B, C, fcall_thresholds=[1, 2])
    ChainSelector(A, B, C, fcall_thresholds=[1, 2, 3])
    return {'ok': True, 'nt': True, 'tags': ['reject']}
