""" Optimizers obey the messages of the manager. """
import math
import multiprocessing as mp
import os
import threading
import time

import numpy as np

import engine as E
from verdict import need
from glompo.common.namedtuples import IterationResult
from glompo.core._backends import ChunkingQueue
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult
from glompo.optimizers.cmawrapper import CMAOptimizer
from glompo.optimizers.random import RandomOptimizer

WAIT = 20


def key(v):
    return 'nan' if v != v else float(v)


def equal(a, b):
    return repr(a) == repr(b)


def run(case):
    with E.quiet() as w:
        return globals()['k_' + case['kind']](case, w)


# ----------------------------------------------------------------------------------------------------------- messages
class Noted(BaseOptimizer):
    """ Notes what it is told. """

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.told = []

    def minimize(self, *a, **k):
        return MinimizeResult()

    def callstop(self, reason='default'):
        self.told.append([1, reason])

    def checkpoint_save(self, path='none', force=None):
        self.told.append([0, str(path)])

    def inject(self, x, fx):
        super().inject(x, fx)
        self.told.append([4, list(x), fx])

    def _checkpoint_pass(self):
        self.told.append([3])


def payload(m):
    """ What goes through the pipe, what is to be noted of it. None for messages which cannot be understood. """
    k = m[0]
    if k == 'stop':
        return (1, [1, 'default']) if m[1] is None else ((1, m[1]), [1, m[1]])
    if k == 'pass':
        return (3, [3]) if m[1] else ((3,), [3])
    if k == 'inject':
        return (4, m[1], m[2]), [4, m[1], m[2]]
    if k == 'save':
        return (0, m[1]), [0, m[1]]
    return {'int': 17, 'neg': -1, 'str': 'stop', 'none': None, 'float': 1.5, 'list': [1], 'tuple': (9, 'x'), 'key': ('a', 1)}[m[1]], None


def k_messages(case, w):
    here, there = mp.Pipe()
    opt = Noted(case['id'], there, None, threading.Event(), workers=case['workers'])
    need(opt.opt_id == case['id'] and opt.workers == case['workers'] and not opt.is_restart, 'the optimizer has id {}', opt.opt_id)
    nt = 0
    for batch in case['batches']:
        want, keys, odd = [], [], 0
        for m in batch:
            sent, noted = payload(m)
            here.send(sent)
            if noted is None:
                odd += 1
            else:
                want.append(noted)
                keys.append(noted[0])
        opt.told = []
        del w[:]
        got = opt.check_messages()
        need(opt.told == want, 'the messages {} resulted in {}', batch, opt.told)
        need(list(got) == keys, 'the messages {} were reported as {}', batch, got)
        need(len([q for q in w if 'Cannot parse' in str(q.message)]) == odd, 'the messages {} resulted in warnings {}', batch, len(w))
        need(not there.poll(), 'there are messages left')
        inj = [q for q in want if q[0] == 4]
        if inj:
            need([list(opt.incumbent['x']), opt.incumbent['fx']] == inj[-1][1:], 'the incumbent is {} after {}', opt.incumbent, batch)
        nt += len(set(keys)) > 1
    need(not here.poll(), 'something was sent without need')
    for key, text in case['out']:
        opt.message_manager(key, text)
        need(here.poll(1) and here.recv() == (key, text), 'message ({}, {}) did not reach the manager', key, text)
    return {'ok': True, 'nt': nt > 0, 'tags': ['messages']}


# -------------------------------------------------------------------------------------------------------------- state
def k_state(case, w):
    with E.scratch() as base:
        here, there = mp.Pipe()
        q = ChunkingQueue(10, 1)
        opt = Noted(3, there, q, threading.Event(), workers=2, backend='processes', is_log_detailed=case['detailed'])
        for k, v in case['attrs']:
            setattr(opt, k, np.array(v) if isinstance(v, list) and case['arrays'] else v)
        opt.call_me = len
        force = [k for k, _ in case['attrs'] if k in case['force']]
        BaseOptimizer.checkpoint_save(opt, base / 'f', force or None)
        a, b = mp.Pipe()
        q2, ev = ChunkingQueue(10, 1), threading.Event()
        new = Noted.checkpoint_load(base / 'f', _opt_id=9, _signal_pipe=a, _results_queue=q2, _pause_flag=ev, workers=5, backend='threads')
        need(new.opt_id == 9 and new.is_restart and new._signal_pipe is a and new._results_queue is q2 and new._pause_signal is ev,
             'the loaded optimizer is not connected to the manager')
        need(not opt.is_restart and opt.opt_id == 3, 'saving changed the optimizer')
        last = dict((k, v) for k, v in case['attrs'])
        for k, v in last.items():
            if k.startswith('_') and k not in force or k in ('n_iter', 'logger'):
                need(k in force or not hasattr(new, k) or k == 'logger', 'the private attribute {} was restored', k)
                continue
            x = getattr(new, k)
            need(equal(x, getattr(opt, k)) and type(x) is type(getattr(opt, k)), 'attribute {} was {} and is restored as {}', k,
                 getattr(opt, k), x)
        need(new.is_log_detailed == case['detailed'] and new.told == [] and new.incumbent == {'x': None, 'fx': None},
             'the public attributes were not restored')
        b.send((4, [1.0], 2.0))
        need(new.check_messages() == [4], 'the loaded optimizer does not react to messages')
        need(opt.incumbent == {'x': None, 'fx': None} or 'incumbent' in last, 'the loaded optimizer shares state with the saved one')
    return {'ok': True, 'nt': len(last) > 1, 'tags': ['state']}


# ----------------------------------------------------------------------------------------------------------- sessions
class Task:
    """ Carries out the actions of the manager which are due at this evaluation. """

    def __init__(self, boss, case, n0=0):
        self.boss, self.case, self.n = boss, case, n0
        self.calls, self.late = [], []
        self.lock = threading.Lock()

    def value(self, x, n):
        k = self.case['values']
        if k == 'sphere':
            return float(sum((q - 0.25) ** 2 for q in x))
        if k == 'const':
            return 3.0
        if k == 'ties':
            return float(round(sum(x)))
        if k == 'holes':
            return [float('nan'), float('inf'), float(sum(x)), -float('inf') if self.case['low'] else 1e300][int(abs(sum(x)) * 1e6) % 4]
        return float('nan')

    def evaluate(self, x):
        with self.lock:
            self.n += 1
            n = self.n
            self.calls.append(list(map(float, x)))
            if self.boss.frozen:
                self.late.append(n)
            acts = [a[1:] for a in self.case['acts'] if a[0] == n]
        if self.case.get('raise_at') == n:
            with self.lock:
                self.calls.remove(list(map(float, x)))
            raise {'value': ValueError, 'interrupt': KeyboardInterrupt, 'pipe': BrokenPipeError}[self.case['raise']]('scripted')
        for a in acts:
            self.boss.act(a, n)
        v = self.value(x, n)
        with self.lock:
            self.boss.fx.append(v)
        return v

    def __call__(self, x):
        return self.evaluate(x)

    def detailed_call(self, x):
        v = self.evaluate(x)
        return (v, *[v + i for i in range(self.case['extras'])])


class Boss:
    """ The manager's side of the pipe. """

    def __init__(self, case, base):
        self.case, self.base = case, base
        self.here, self.there = mp.Pipe()
        self.queue = ChunkingQueue(100000, 1)
        self.event = threading.Event()
        self.event.set()
        self.frozen, self.stops, self.messages, self.saved, self.problems, self.fx = False, [], [], [], [], []
        self.injected = []
        self.lock = threading.RLock()
        self.busy = None
        self.task = None

    def act(self, a, n):
        with self.lock:
            self.do(a, n)

    def do(self, a, n):
        k = a[0]
        if k == 'stop':
            self.here.send(1 if a[1] is None else (1, a[1]))
            self.stops.append((n, a[1]))
        elif k == 'inject':
            x = [lo + (hi - lo) * q / 16 for q, (lo, hi) in zip(a[1], self.case['bounds'])]
            self.here.send((4, x, a[2]))
            self.injected.append((n, x, a[2]))
        elif k == 'pass':
            self.here.send(3)
        elif k == 'odd':
            self.here.send('odd')
        elif k == 'pause':
            if self.busy is None or not self.busy.is_alive():
                self.event.clear()
                self.busy = threading.Thread(target=self.release, args=(a[1],), daemon=True)
                self.busy.start()
        elif k == 'checkpoint':
            if self.busy is None or not self.busy.is_alive():
                self.here.send(2)
                self.busy = threading.Thread(target=self.checkpoint, args=(a, n), daemon=True)
                self.busy.start()

    def release(self, delay):
        # The current evaluation may end, nothing else may begin
        time.sleep(0.002)
        before = self.task.n
        time.sleep(delay / 1000)
        self.paused = (before, self.task.n)
        self.event.set()

    def checkpoint(self, a, n):
        try:
            end = time.time() + WAIT
            while True:
                if not self.here.poll(0.05):
                    if time.time() > end:
                        self.problems.append('no answer to the request to prepare a checkpoint')
                        return
                    if self.over():
                        return
                    continue
                m = self.here.recv()
                self.messages.append(m)
                if m[0] == 1:
                    break
                if m[0] == 0:
                    # The optimizer ended at the same time: it is allowed to pass
                    pass
            before = self.task.n
            self.frozen = True
            for extra in a[2]:
                self.act(extra, before)
            path = self.base / f'c{len(self.saved)}'
            self.here.send((0, path) if a[1] else 3)
            while self.event.is_set():
                if time.time() > end or self.over():
                    self.problems.append('the optimizer did not wait after the checkpoint')
                    break
                time.sleep(0.0005)
            time.sleep(0.003)
            self.frozen = False
            if a[1]:
                self.saved.append((before, path, len(self.fx)))
                if not path.exists():
                    self.problems.append('no checkpoint file was made')
            elif path.exists():
                self.problems.append('a checkpoint file was made without request')
            self.event.set()
        except (EOFError, OSError):
            pass

    def over(self):
        return self.worker is not None and not self.worker.is_alive()

    def drain(self):
        while self.here.poll():
            self.messages.append(self.here.recv())


def session(case, base, opt_maker, n0=0, call=None, task=None):
    boss = Boss(case, base)
    task = task or Task(boss, case, n0)
    boss.task = task
    opt = opt_maker(boss)
    out = {}
    x0 = [lo + (hi - lo) * q / 16 for q, (lo, hi) in zip(case['x0'], case['bounds'])]

    def go():
        try:
            out['result'] = opt._minimize(task, x0, case['bounds'], **(call or {}))
        except BaseException as e:  # noqa
            out['error'] = e
    boss.worker = None
    t = threading.Thread(target=go, daemon=True)
    boss.worker = t
    t.start()
    t.join(WAIT + 10)
    need(not t.is_alive(), 'the optimizer did not end after {} evaluations, stops: {}, checkpoints: {}', task.n - n0, boss.stops, boss.saved)
    if boss.busy:
        boss.busy.join(WAIT)
    boss.drain()
    need(not boss.problems, '{}', boss.problems[:1])
    need(opt.workers > 1 or not task.late, 'evaluations {} were made while the optimizer should have waited for the checkpoint', task.late)
    boss.out = out
    boss.opt = opt
    # Everything evaluated was reported once, in order, followed by the end
    items = []
    while boss.queue.qsize() or boss.queue.has_cache():
        if not boss.queue.qsize():
            boss.queue.flush()
        items.extend(boss.queue.get(False))
    need(items and items[-1] == opt.opt_id, 'the end of the optimizer was not reported: {}', items[-1:])
    body = items[:-1]
    need(all(isinstance(i, IterationResult) and i.opt_id == opt.opt_id for i in body), 'strange results {}', body)
    raised = 'raise_at' in case and case['raise_at'] <= task.n and case['raise_at'] > n0
    calls = task.calls
    if opt.workers == 1:
        need([list(map(float, i.x)) for i in body] == calls, '{} evaluations were made but {} reported, or others', len(calls), len(body))
        need([key(i.fx) for i in body] == [key(v) for v in boss.fx], 'other values were reported than evaluated')
    else:
        need(sorted(map(repr, (list(map(float, i.x)) for i in body))) == sorted(map(repr, calls)), '{} evaluations were made but {} '
             'reported, or others', len(calls), len(body))
    for i in body:
        need(len(i.extras) == (case['extras'] if case['detailed'] else 0), 'extras {}', i.extras)
        need(all(key(q) == key(i.fx + k) for k, q in enumerate(i.extras)), 'extras {} of {}', i.extras, i.fx)
    for c in calls:
        need(all(lo - 1e-9 * (hi - lo) <= q <= hi + 1e-9 * (hi - lo) for q, (lo, hi) in zip(c, case['bounds'])), '{} is outside of the bounds {}',
             c, case['bounds'])
    ends = [m for m in boss.messages if m[0] == 0]
    if raised:
        kind = case['raise']
        tb = [m for m in boss.messages if m[0] == 9]
        if kind == 'value':
            need(isinstance(out.get('error'), ValueError) and len(tb) == 1 and 'Traceback' in str(tb[0][1]) and 'scripted' in str(tb[0][1]),
                 'the failure of the task was reported as {}', boss.messages)
        else:
            need('error' not in out, 'an interrupt was raised: {!r}', out.get('error'))
        need(not ends, 'an optimizer which failed claims convergence: {}', ends)
    else:
        if 'error' in out:
            raise out['error']
        need(len(ends) == 1 and isinstance(ends[0][1], str) and 'onvergence' in ends[0][1], 'the end was announced as {}', ends)
    if hasattr(boss, 'paused'):
        need(boss.paused[1] - boss.paused[0] <= case.get('slack', 0), 'after the optimizer was paused evaluations went from {} to {}', *boss.paused)
    return boss, task, raised


def best_of(calls, fx):
    b = (math.inf, None)
    for x, v in zip(calls, fx):
        if v < b[0]:
            b = (v, x)
    return b


def near(a, b, case):
    """ The library used maps vectors near the bounds imprecisely. """
    return all(abs(p - q) <= 0.06 * (hi - lo) for p, q, (lo, hi) in zip(a, b, case['bounds']))


def k_random(case, w):
    with E.scratch() as base:
        np.random.seed(case['seed'])
        make = lambda boss: RandomOptimizer(5, boss.there, boss.queue, boss.event, is_log_detailed=case['detailed'], iters=case['iters'])
        boss, task, raised = session(case, base, make)
        want = case['iters']
        if boss.stops:
            want = min(want, boss.stops[0][0])
        if raised:
            want = case['raise_at']
        need(task.n == want, '{} evaluations were made with iters={}, stops {}', task.n, case['iters'], boss.stops)
        if not raised:
            r = boss.out['result']
            v, x = best_of(task.calls, boss.fx)
            need(r.fx == v and (x is None and r.x is None or list(r.x) == x), 'the result is {} {} instead of {} {}', r.x, r.fx, x, v)
        t = ['random'] + (['stopped'] if boss.stops else []) + (['raised'] if raised else [])
        if boss.saved:
            n, path, k = boss.saved[case['pick'] % len(boss.saved)]
            stopped = any(s[0] <= n for s in boss.stops)
            case2 = {**case, 'acts': [], 'raise_at': 0}
            first = [boss.fx[:n], task.calls[:n]]
            make2 = lambda b: RandomOptimizer.checkpoint_load(path, _opt_id=5, _signal_pipe=b.there, _results_queue=b.queue,
                                                              _pause_flag=b.event, workers=1, backend='threads')
            if stopped:
                b2 = make2(Boss(case2, base))
                need(b2.stop_called, 'the optimizer was told to stop before the checkpoint but not after loading it')
            else:
                b2, t2, _ = session(case2, base, make2, n)
                need(t2.n == case['iters'], 'resumed after {} of {} evaluations it ended after {}', n, case['iters'], t2.n)
                v, x = best_of(first[1] + t2.calls, first[0] + b2.fx)
                r = b2.out['result']
                need(r.fx == v and (x is None and r.x is None or list(r.x) == x), 'the result after resuming is {} {} instead of {} {}', r.x, r.fx, x, v)
                t.append('resumed')
        return {'ok': True, 'nt': bool(case['acts']), 'tags': t}


def k_cma(case, w):
    d = len(case['bounds'])
    old = os.getcwd()
    with E.scratch() as base:
        os.chdir(base)
        try:
            return cma_session(case, base, d)
        finally:
            os.chdir(old)


def cma_session(case, base, d):
    kw = dict(case['settings'])
    workers = case['workers']
    pop = kw.get('popsize') or (workers if workers > 1 else 4 + int(3 * math.log(d)))
    call = {'sigma0': case['sigma']}
    cbs = []
    if case.get('callback'):
        def cb():
            cbs.append(1)
            return len(cbs) >= case['callback']
        call['callbacks'] = cb
    make = lambda boss: CMAOptimizer(5, boss.there, boss.queue, boss.event, workers, 'threads', case['detailed'], verbose=case['verbose'],
                                     keep_files=case['keep'], force_injects=case['force'], injection_frequency=case['every'],
                                     maxiter=case['maxiter'], seed=case['seed'] + 1, **kw)
    case = {**case, 'slack': pop}
    boss, task, raised = session(case, base, make, call=call)
    t = ['cma'] + (['stopped'] if boss.stops else []) + (['raised'] if raised else [])
    opt = boss.opt
    limit = case['maxiter'] * pop
    if not raised:
        if boss.stops and workers == 1:
            g = -(-boss.stops[0][0] // pop) * pop
            need(task.n <= g, 'told to stop at evaluation {} it made {} evaluations (population {})', boss.stops[0][0], task.n, pop)
        if boss.stops and workers > 1:
            # Messages are read whenever a result arrives: what had been started by then may still end
            need(task.n <= -(-boss.stops[0][0] // pop) * pop, 'told to stop at evaluation {} it made {} (population {})', boss.stops[0][0],
                 task.n, pop)
        need(task.n <= limit, '{} evaluations with {} iterations of {}', task.n, case['maxiter'], pop)
        if case.get('callback') and not boss.stops:
            need(task.n <= case['callback'] * pop and len(cbs) <= case['callback'], 'the callback asked to stop in iteration {} but {} evaluations '
                 'were made', case['callback'], task.n)
        if case['values'] == 'sphere' and not boss.stops and not case.get('callback') and not boss.injected:
            need(task.n == limit, '{} evaluations instead of {} iterations of {}', task.n, case['maxiter'], pop)
            t.append('full')
        r = boss.out['result']
        stop_reasons = [s[1] for s in boss.stops]
        if workers == 1 and case['values'] in ('sphere', 'const'):
            full = len(boss.fx) // pop * pop
            v, x = best_of(task.calls[:full], boss.fx[:full])
            need(r.fx == v, 'the result is {} but the best evaluation {}', r.fx, v)
            need(r.x is not None and (case['values'] == 'const' or np.allclose(r.x, x, rtol=1e-9, atol=1e-12)), 'the result is {} but the best evaluation {}', r.x, x)
            # A stop which arrives in the last iteration may be too late to matter
            if not boss.stops:
                need(bool(r.success), 'the optimization converged but reports success={}', r.success)
            elif boss.stops[-1][1] in (None, 'Manager termination signal', 'GloMPO Crash') and task.n < limit:
                need(not r.success, 'the optimizer was stopped by the manager ({}) but reports success', stop_reasons)
        x0 = [lo + (hi - lo) * q / 16 for q, (lo, hi) in zip(case['x0'], case['bounds'])]
        if workers == 1 or task.n >= pop and not boss.stops:
            inside = all(4 <= q <= 12 for q in case['x0'])
            if inside:
                need(any(near(c, x0, case) for c in task.calls[:pop]), 'the starting point {} was not evaluated: {}', x0,
                     task.calls[:pop])
    files = sorted(os.listdir(base))
    files = [f for f in files if not f.startswith('c') or f.startswith('cma')]
    if not raised:
        need(files == (['cma_opt5_results.pkl'] if case['keep'] else []), 'with keep_files={} there are files {}', case['keep'], files)
    # Injected incumbents
    if workers == 1 and not raised:
        inc = injections(case, boss, task, pop)
        t += ['injected'] if inc else []
    # Resume
    if boss.saved and workers == 1 and not raised:
        k = case['pick'] % len(boss.saved)
        n, path, _ = boss.saved[k]
        last = k == len(boss.saved) - 1
        later = [a for a in case['acts'] if a[0] > n] or any(s[0] > n - pop for s in boss.stops)
        case2 = {**case, 'acts': [], 'raise_at': 0, 'callback': 0}
        make2 = lambda b: CMAOptimizer.checkpoint_load(path, _opt_id=5, _signal_pipe=b.there, _results_queue=b.queue,
                                                       _pause_flag=b.event, workers=workers, backend='threads')
        if any(s[0] <= n for s in boss.stops):
            return {'ok': True, 'nt': True, 'tags': t}
        b2, t2, _ = session(case2, base, make2, n)
        if last and not later and not case.get('callback') and not (boss.injected and case['every']):
            # The random generator is saved too: the resumed optimizer does exactly what the first one did
            need(t2.calls == task.calls[n:], 'resumed after {} evaluations it made {} evaluations, the first session {} more; first difference at {}',
                 n, len(t2.calls), len(task.calls) - n, next((i for i, (p, q) in enumerate(zip(t2.calls, task.calls[n:])) if p != q), None))
            r, s = boss.out['result'], b2.out['result']
            need(key(r.fx) == key(s.fx) and list(r.x) == list(s.x), 'the result is {} after resuming, {} without', s.fx, r.fx)
            t.append('same')
        if case['values'] == 'sphere' and not case.get('callback') and not boss.injected:
            need(t2.n == limit, 'resumed after {} of {} evaluations it ended after {}', n, limit, t2.n)
        t.append('resumed')
    return {'ok': True, 'nt': bool(case['acts']), 'tags': t}


def injections(case, boss, task, pop):
    """ Forced injections are part of the next population. """
    every = case['every']
    if not every or not case['force'] or case['values'] != 'sphere':
        return False
    done = False
    inc, counter = None, 0
    x0 = [lo + (hi - lo) * q / 16 for q, (lo, hi) in zip(case['x0'], case['bounds'])]
    for g in range(1, len(boss.fx) // pop + 1):
        gen = boss.fx[(g - 1) * pop:g * pop]
        if g == 1:
            inc = (x0, gen[0])
        for n, x, fx in boss.injected:
            if (g - 1) * pop < n <= g * pop:
                inc = (x, fx)
        if inc[1] < min(gen) and g - counter > every:
            counter = g
            nxt = task.calls[g * pop:(g + 1) * pop]
            if nxt:
                inside = all(0.24 <= (q - lo) / (hi - lo) <= 0.76 for q, (lo, hi) in zip(inc[0], case['bounds']))
                need(not inside or any(near(c, inc[0], case) for c in nxt), 'the incumbent {} (better than all of iteration {}) was '
                     'not evaluated in the next one: {}', inc, g, nxt)
                done = True
    return done


def k_standalone(case, w):
    """ Without a manager, several times. """
    old = os.getcwd()
    with E.scratch() as base:
        os.chdir(base)
        try:
            opt = CMAOptimizer(workers=case['workers'], verbose=False, maxiter=case['maxiter'], keep_files=case['keep'], seed=case['seed'] + 1,
                               force_injects=True, injection_frequency=case['every'])
            for i, (d, bad) in enumerate(case['rounds']):
                calls = []
                lock = threading.Lock()

                def f(x):
                    with lock:
                        calls.append(list(x))
                    return float(sum((q - 0.1) ** 2 for q in x))
                if bad:
                    try:
                        opt.minimize(f, [0.3] * d, [(-1.0, 1.0)] * d, sigma0=[0, -1.0][bad - 1])
                    except ValueError:
                        continue
                    need(False, 'sigma0 <= 0 was accepted')
                pop = case['workers'] if case['workers'] > 1 else 4 + int(3 * math.log(d))
                r = opt.minimize(f, [0.3] * d, [(-1.0, 1.0)] * d, sigma0=0.4)
                need(len(calls) == pop * case['maxiter'], 'minimisation {} of dimension {} made {} evaluations instead of {} populations of {}', i + 1, d,
                     len(calls), case['maxiter'], pop)
                v = min(sum((q - 0.1) ** 2 for q in c) for c in calls)
                need(abs(r.fx - v) < 1e-12 and len(r.x) == d and r.success, 'the result of minimisation {} is {} {}, best {}', i + 1, r.fx, r.x, v)
            n = len([1 for _, b in case['rounds'] if not b])
            need(sorted(os.listdir(base)) == (['cma_results.pkl'] if case['keep'] and n else []), 'files {}', os.listdir(base))
            ro = RandomOptimizer(iters=case['maxiter'])
            d = case['rounds'][0][0]
            r = ro.minimize(lambda x: float(sum(x)), [0.0] * d, [(-1.0, 1.0)] * d)
            need(ro.used_iters == case['maxiter'] and r.success and abs(sum(r.x) - r.fx) < 1e-12, 'RandomOptimizer alone: {} {}', r.x, r.fx)
        finally:
            os.chdir(old)
    return {'ok': True, 'nt': len(case['rounds']) > 1, 'tags': ['standalone']}
