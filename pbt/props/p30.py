""" Sessions with real processes. """
import math
import multiprocessing as mp
import os
import signal
import shutil
import time
import warnings
from pathlib import Path

import engine as E
from verdict import need, same
from glompo.convergence import BaseChecker
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.generators import BaseGenerator
from glompo.hunters import BaseHunter
from glompo.opt_selectors.baseselector import BaseSelector
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

PARMS = 4


class ActorError(Exception):
    pass


class Task:
    """ x = (optimizer, position, value, 0.5); nan and infinities are not within the bounds but nobody minds. """

    def __init__(self, late=0):
        self.late = late

    def __call__(self, x):
        return float(x[2])

    def detailed_call(self, x):
        return float(x[2]), float(x[1]) * 10, float(x[0])


class Actor(BaseOptimizer):
    """ Does what the script says and writes down what it did in a file. """

    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1, backend='threads',
                 is_log_detailed=False, script=(), notes=None, deaf=False, **kwargs):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed)
        self.script, self.notes, self.pos, self.deaf = script, str(notes), 0, deaf
        self.told = False

    def note(self, *what):
        with open(Path(self.notes) / f'{self.opt_id}.txt', 'a') as f:   # One short write each: survives whatever comes next
            f.write(repr(what) + '\n')

    def inject(self, x, fx):
        self.note('inject', [float(v) for v in x], float(fx))

    def callstop(self, reason=''):
        self.told = True
        self.note('stop')

    def checkpoint_save(self, path, force=None):
        self.note('save', self.pos)
        super().checkpoint_save(path, force)

    def look(self):
        if not self.deaf:
            self.check_messages()
            self._pause_signal.wait()

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        self.note('start', os.getpid(), mp.current_process().daemon, self._backend, self.workers, self.pos, self.is_restart,
                  [] if self.is_restart else [float(v) for v in x0], mp.current_process().name)
        while self.pos < len(self.script) and not self.told:
            op = self.script[self.pos]
            self.pos += 1
            if op[0] == 'e':
                self.note('ev', self.pos, op[1])
                v = function([float(self.opt_id), float(self.pos), op[1], 0.5])
                self.note('got', self.pos, v)
            elif op[0] == 'm':
                self.message_manager(9, op[1])
                self.note('said', op[1])
            elif op[0] == 'sleep':
                time.sleep(op[1])
            elif op[0] == 'raise':
                self.note('raise')
                raise ActorError(f'by {self.opt_id}')
            elif op[0] == 'exit':
                self.note('exit', op[1])
                os._exit(op[1])
            elif op[0] == 'signal':
                self.note('signal', op[1])
                os.kill(os.getpid(), op[1])
                time.sleep(5)
            elif op[0] == 'child':
                self.note('child', self.child())
            elif op[0] == 'silent':
                self.note('silent')
                return MinimizeResult()
            elif op[0] == 'hang':
                self.note('hang')
                time.sleep(600)
            elif op[0] == 'listen':
                self.note('listen')
                while not self.told:
                    self.look()
                    time.sleep(0.005)
            self.look()
        if not self.told:
            self.note('done')
            self.message_manager(0, 'Optimizer convergence')
        self.look()
        self.note('left')
        return MinimizeResult()

    def child(self):
        """ Only optimizers which are not daemons may have processes of their own. """
        try:
            p = mp.Process(target=int)
            p.start()
            p.join(10)
            return p.exitcode == 0
        except AssertionError:
            return False


class Pick(BaseSelector):
    def __init__(self, *opts, n=1):
        super().__init__(*opts)
        self.k, self.n = 0, n

    def select_optimizer(self, manager, log, slots_available):
        if self.k >= self.n:
            return False
        opt = self.avail_opts[self.k % len(self.avail_opts)]
        if opt[1]['workers'] > slots_available:
            return None
        self.k += 1
        return opt


class X0(BaseGenerator):
    """ Also notes how many evaluations there were when an optimizer was started. """

    def __init__(self):
        super().__init__()
        self.begun = {}

    def generate(self, manager):
        self.begun[manager.o_counter] = manager.f_counter
        return [float(manager.o_counter), 0., 0., 0.5]


class End(BaseChecker):
    """ True once this number of evaluations was seen, or if only optimizers which listen are left. """

    def __init__(self, f=None, listeners=(), n=0):
        super().__init__()
        self.f, self.listeners, self.n = f, set(listeners), n

    def __call__(self, manager):
        ended = set()
        for o in range(1, manager.o_counter + 1):
            try:
                manager.opt_log.get_metadata(o, 'end_cond')
                ended.add(o)
            except KeyError:
                pass
        left = set(range(1, self.n + 1)) - ended
        done = bool(self.listeners) and manager.o_counter >= self.n and left <= self.listeners and manager.optimizer_queue.empty()
        self.last_result = done or (self.f is not None and manager.f_counter >= self.f)
        return self.last_result


class Kill(BaseHunter):
    """ Kills the victims given once their best value is not the best of all. """

    def __init__(self, victims=(), after=0):
        super().__init__()
        self.victims, self.after = set(victims), after

    def __call__(self, log, hunter, victim):
        self.last_result = victim in self.victims and log.len(victim) >= self.after
        return self.last_result


def notes(folder, n):
    out = {}
    for o in range(1, n + 1):
        p = folder / f'{o}.txt'
        out[o] = [eval(line, {'nan': math.nan, 'inf': math.inf}) for line in p.read_text().splitlines()] if p.exists() else []
    return out


def of(ev, kind):
    return [e for e in ev if e[0] == kind]


def setup(case, base):
    wd, nd = base / 'work', base / 'notes'
    wd.mkdir()
    nd.mkdir()
    opts = [(Actor, {'workers': s['workers'], 'script': s['ops'], 'notes': nd, 'deaf': s.get('deaf', False)}, None) for s in case['scripts']]
    n = len(opts)
    m = GloMPOManager()
    listeners = [o for o, s in enumerate(case['scripts'], 1) if any(p[0] in ('listen', 'hang') for p in s['ops'])]
    c = case.get('ckpt')
    ctl = CheckpointingControl(checkpointing_dir=base / 'chk', naming_format='c%(count)', keep_past=-1, checkpoint_at_conv=bool(c.get('conv')),
                               **({'checkpoint_iter_frequency': c['every']} if c.get('every') else {})) if c else None
    m.setup(Task(), [(-1e9, 1e9)] * PARMS, Pick(*opts, n=n), working_dir=wd, max_jobs=case['max_jobs'], backend=case['backend'], x0_generator=X0(),
            convergence_checker=End(case.get('f'), listeners, n), summary_files=0, overwrite_existing=True,
            killing_conditions=Kill(case['victims'], case.get('after', 0)) if case.get('victims') else None, hunt_frequency=case.get('freq', 1),
            share_best_solutions=case.get('share', False), is_log_detailed=case.get('detailed', False), split_printstreams=case.get('split', False),
            aggressive_kill=case.get('aggressive', False), end_timeout=case.get('end_timeout', 20), checkpoint_control=ctl)
    m.opt_log.build_traj_plot = True
    m.messages = listen(m)
    return m, nd, wd


def listen(m):
    put, got = m.opt_log.put_message, {}

    def put_message(o, text):
        got.setdefault(o, []).append(str(text))
        return put(o, text)
    m.opt_log.put_message = put_message
    return lambda o: got.get(o, [])


def go(m):
    """ Runs the session in a quiet place. """
    before = {p.pid for p in mp.active_children()}
    t = time.time()
    with E.quiet() as w:
        res = m.start_manager()
    t = time.time() - t
    left = []
    for _ in range(60):
        left = [p for p in mp.active_children() if p.pid not in before and p.name.startswith('Opt')]
        if not left:
            break
        time.sleep(0.05)
    for p in left:
        p.kill()
    return res, [str(x.message) for x in w], [p.name for p in left], t


def history(m):
    h = {}
    for o in range(1, m.o_counter + 1):
        cols = {}
        if m.opt_log.has_iter_history(o):
            for c in ('call_id', 'x', 'fx') + (('result_0', 'result_1') if m.is_log_detailed else ()):
                cols[c] = [list(v) if c == 'x' else v for v in m.opt_log.get_history(o, c)]
        h[o] = cols
    return h


def meta(m, o, key):
    try:
        return m.opt_log.get_metadata(o, key)
    except KeyError:
        return None


def check_records(case, h, ev, m, done, cut):
    """ done: optimizers of which everything must be recorded. cut: {optimizer: recorded in the checkpoint}, which repeats nothing. """
    ids = []
    for o, cols in h.items():
        made = of(ev[o], 'ev')
        got = of(ev[o], 'got')
        for (_, i, v), (_, j, w) in zip(made, got):
            need(i == j and same(float(v), w), 'optimizer {} got {} for its evaluation {} of value {}', o, w, i, v)
        xs, fs = cols.get('x', []), cols.get('fx', [])
        want = [([float(o), float(i), v, 0.5], v) for _, i, v in made]
        need(len(xs) <= len(want), 'optimizer {} made {} evaluations, {} are recorded', o, len(want), len(xs))
        for k, (x, fx) in enumerate(zip(xs, fs)):
            need(all(same(float(a), float(b)) for a, b in zip(x, want[k][0])) and same(float(fx), float(want[k][1])),
                 'evaluation {} of optimizer {} is recorded as {}, {} instead of {}', k + 1, o, x, fx, want[k])
        if o in done:
            need(len(xs) >= len(got), 'optimizer {} has ended after {} evaluations, only {} are recorded', o, len(got), len(xs))
        if case.get('detailed') and xs:
            need(list(map(float, cols['result_0'])) == [10. * w[0][1] for w in want[:len(xs)]] and set(map(float, cols['result_1'])) == {float(o)},
                 'the details of optimizer {} are {} {}', o, cols['result_0'], cols['result_1'])
        c = [int(v) for v in cols.get('call_id', [])]
        need(c == sorted(c), 'the numbers of optimizer {} are {}', o, c)
        ids += c
    need(sorted(ids) == list(range(1, m.f_counter + 1)), 'the evaluations are numbered {} although there are {}', sorted(ids), m.f_counter)


def best(h):
    rows = sorted((int(c), float(f), x, o) for o, cols in h.items() for c, f, x in zip(cols.get('call_id', ()), cols.get('fx', ()), cols.get('x', ())))
    b, steps = None, []
    for c, f, x, o in rows:
        if f == f and f < math.inf and (b is None or f < b[1]):
            b = (c, f, x, o)
            steps.append(b)
    return b, steps


def check_best(h, res, m):
    b, steps = best(h)
    if b is None:
        return steps
    need(float(res.fx) == b[1] and list(map(float, res.x)) == list(map(float, b[2])) and res.origin['opt_id'] == b[3],
         'the result is {} {} {} instead of {}', res.x, res.fx, res.origin, b)
    need(res.origin['type'] == 'Actor', 'type {}', res.origin)
    return steps


def check_ends(case, ev, m, warned):
    """ How optimizers ended, and that this is what is recorded. """
    conv = 0
    for o in range(1, m.o_counter + 1):
        end, stop, msgs = str(meta(m, o, 'end_cond')), meta(m, o, 't_stop'), m.messages(o)
        need(stop is not None and meta(m, o, 'end_cond') is not None, 'optimizer {} has no end: {} {}', o, stop, end)
        e = ev[o]
        if o in m.hunt_victims:
            need(end.startswith('GloMPO Termination'), 'optimizer {} was killed, its end is {}', o, end)
            continue
        if end in ('GloMPO Convergence',):
            if not case.get('aggressive'):
                need(not of(e, 'done') or m.converged, 'optimizer {} converged, its end is {}', o, end)
            continue
        if of(e, 'done'):
            need(end == 'Optimizer convergence', 'optimizer {} converged, its end is {}', o, end)
            conv += 1
        elif of(e, 'raise'):
            need(end.startswith('Error termination'), 'optimizer {} raised, its end is {}', o, end)
            need(any('ActorError' in str(t) and 'Traceback' in str(t) for t in msgs), 'the traceback of optimizer {} is missing: {}', o, msgs)
        elif of(e, 'exit') and of(e, 'exit')[0][1] == 0 or of(e, 'silent'):
            need(end.startswith('Normal termination'), 'optimizer {} ended without notice, its end is {}', o, end)
            conv += 1
        elif of(e, 'exit'):
            c = of(e, 'exit')[0][1]
            need(end == f'Error termination (exitcode {-c}).', 'optimizer {} ended with code {}, its end is {}', o, c, end)
        elif of(e, 'signal'):
            c = of(e, 'signal')[0][1]
            need(end == f'Error termination (exitcode {int(c)}).', 'optimizer {} ended by signal {}, its end is {}', o, c, end)
        else:
            need(False, 'the end of optimizer {} is {}, it did {}', o, end, e[-3:])
        said = [s[1] for s in of(e, 'said')]
        have = [str(t) for t in msgs]
        for s in said:
            need(s in have, 'the message {!r} of optimizer {} is missing: {}', s, o, have)
    return conv


def run(case):
    real = case['backend'] != 'threads'
    with E.scratch() as base:
        m, nd, wd = setup(case, base)
        n = len(case['scripts'])
        res, warned, left, t = go(m)
        ev = notes(nd, n)
        end = res.stats['end_cond']
        need('Crash' not in str(end), 'the session crashed: {}', [w for w in warned if 'Traceback' in w][:1])
        need(not left, 'processes {} are still running after the session', left)
        need(m.o_counter == len([o for o in ev if of(ev[o], 'start')]) or case.get('aggressive') or end != 'No optimizers alive, spawning stopped.',
             '{} optimizers were started, seen: {}', m.o_counter, {o: e[:1] for o, e in ev.items()})
        pids = [s[1] for o in ev for s in of(ev[o], 'start')]
        if real:
            need(len(set(pids)) == len(pids) and os.getpid() not in pids, 'the processes of the optimizers are {}, ours is {}', pids, os.getpid())
        for o, e in ev.items():
            for s in of(e, 'start'):
                need(s[8] == f'Opt{o}' if real else True, 'optimizer {} runs in {}', o, s[8])
                if real:
                    need(s[2] == (case['backend'] == 'processes'), 'optimizer {} is {}a daemon', o, '' if s[2] else 'not ')
                need(s[3] == ('processes' if case['backend'] == 'processes_forced' else 'threads'), 'optimizer {} should use {}', o, s[3])
                need(s[4] == case['scripts'][o - 1]['workers'], 'optimizer {} has {} workers', o, s[4])
                need(s[7] == [float(o), 0., 0., 0.5], 'optimizer {} begins at {}', o, s[7])
            for c in of(e, 'child'):
                need(c[1] == (case['backend'] != 'processes') or not real, 'optimizer {} could {}start a process', o, '' if c[1] else 'not ')
        h = history(m)
        # Evaluations still queued when a condition ends the session are not recorded
        natural = str(end).startswith('No optimizers alive')
        over = {o for o in ev if natural or (of(ev[o], 'done') or of(ev[o], 'left')) and not case.get('f')} - set(m.hunt_victims)
        if not natural and not case.get('f'):
            over = {o for o in ev if of(ev[o], 'done')} - set(m.hunt_victims)
        check_records(case, h, ev, m, over, {})
        steps = check_best(h, res, m)
        conv = check_ends(case, ev, m, warned)
        need(not steps or res.stats['f_evals'] == m.f_counter, 'stats {} for {} evaluations', res.stats, m.f_counter)
        need(m.conv_counter >= conv if not natural else m.conv_counter == conv, '{} optimizers converged, {} were counted', conv, m.conv_counter)
        need(set(m.hunt_victims) <= set(case.get('victims', ())), 'killed: {}, should be of {}', sorted(m.hunt_victims), case.get('victims'))
        for o in set(ev):
            told = len(of(ev[o], 'stop'))
            # A checkpoint made at the end of the session stops the optimizers as well
            need(told <= 1 + bool(case.get('ckpt')), 'optimizer {} was told to stop {} times', o, told)
            if o in m.hunt_victims:
                ended = of(ev[o], 'done') or of(ev[o], 'raise') or of(ev[o], 'silent') or of(ev[o], 'exit') or of(ev[o], 'signal')
                if case.get('aggressive') and real:
                    need(not told or not natural, 'optimizer {} was told to stop although it should be terminated', o)
                elif not case['scripts'][o - 1].get('deaf') and not of(ev[o], 'hang'):
                    need(told or ended, 'optimizer {} was killed but not told', o)
            elif natural:
                need(not told, 'optimizer {} was told to stop for no reason', o)
        # Incumbents
        for o, e in ev.items():
            got = [(i[2], i[1]) for i in of(e, 'inject')]
            if not case.get('share'):
                need(not got, 'optimizer {} was sent {}', o, got)
                continue
            since = m.x0_generator.begun.get(o, 0)
            mine = [(s[1], list(map(float, s[2]))) for s in steps if s[3] != o and s[0] > since]
            it = iter(mine)
            need(all(any(g[0] == q[0] and g[1] == q[1] for q in it) for g in got), 'optimizer {} was sent {}, new bests of others were {}', o, got, mine)
            if of(e, 'listen') and of(e, 'stop') and o not in m.hunt_victims:
                need(len(got) == len(mine), 'optimizer {} was sent {}, all new bests of others were {}', o, got, mine)
        tags = [case['backend']] + ['killed'] * bool(m.hunt_victims) + ['natural'] * natural + \
               [k for k in ('raise', 'exit', 'signal', 'silent', 'inject', 'child', 'listen', 'hang', 'save') if any(of(e, k) for e in ev.values())]
        nt = m.f_counter > 1 and m.o_counter > 1
        if case.get('ckpt') and m.checkpoint_history:
            resume(case, base, m, nd, ev)
            tags.append('resumed')
        return {'ok': True, 'nt': nt, 'tags': tags}


def resume(case, base, m1, nd, ev1):
    paths = sorted(map(Path, m1.checkpoint_history), key=lambda p: (len(p.name), p.name))
    path = paths[case['pick'] % len(paths)]
    n = len(case['scripts'])
    m = GloMPOManager()
    with E.quiet() as w:
        m.load_checkpoint(path, **({'backend': case['backend2']} if case.get('backend2') else {}))
    m.opt_log.build_traj_plot = True
    m.convergence_checker = End(None, m.convergence_checker.listeners, n)
    f0, h0 = m.f_counter, history(m)
    ended = {o for o in range(1, m.o_counter + 1) if meta(m, o, 'end_cond') is not None}
    killed0 = set(m.hunt_victims)
    first = {o: list(e) for o, e in ev1.items()}
    shutil.rmtree(nd)
    nd.mkdir()
    running = set(range(1, m.o_counter + 1)) - ended
    if not running and not m.spawning_opts:
        return
    res, warned, left, t = go(m)
    ev2 = notes(nd, n)
    if any('Aborting start' in x for x in warned):
        need(running <= m.convergence_checker.listeners and m.o_counter >= n, 'the second session did not start: {}', warned)
        need(not any(ev2.values()), 'the second session was over, but optimizers were started')
        return
    need('Crash' not in str(res.stats['end_cond']), 'the second session crashed: {}', [x for x in warned if 'Traceback' in x][:1])
    need(not left, 'processes {} are still running after the second session', left)
    for o, e in ev2.items():
        s = of(e, 'start')
        if o in ended:
            need(not s, 'optimizer {} had ended ({}), but runs in the second session', o, meta(m, o, 'end_cond'))
        if o in running:
            need(len(s) == 1, 'optimizer {} was running but is started {} times in the second session', o, len(s))
            need(s[0][6], 'optimizer {} does not know that it was restarted', o)
            if case['backend'] != 'threads' or case.get('backend2'):
                daemon = (case.get('backend2') or case['backend']) == 'processes'
                need(s[0][2] == daemon and s[0][1] != os.getpid(), 'optimizer {} is {}a daemon in the second session', o, '' if s[0][2] else 'not ')
            did = len(h0[o].get('x', ()))
            made = [i for i, p in enumerate(case['scripts'][o - 1]['ops'][:s[0][5]], 1) if p[0] == 'e']
            need(len(made) == did, 'optimizer {} continues after operation {} ({} evaluations), {} are in the checkpoint', o, s[0][5], len(made), did)
        elif s:
            need(not s[0][6] and s[0][5] == 0, 'optimizer {} is new, but began at {}', o, s)
    both = {o: [e for e in first[o] if e[0] in ('ev', 'got')][:2 * len(h0.get(o, {}).get('x', ()))] + ev2[o] for o in ev2}
    h = history(m)
    for o, cols in h0.items():
        for k, v in cols.items():
            need(len(h[o].get(k, ())) >= len(v) and all(same(a, b) for a, b in zip(v, h[o][k])), 'history of optimizer {}: {} was {} now {}', o, k, v, h[o].get(k))
    natural = str(res.stats['end_cond']).startswith('No optimizers alive')
    over = {o for o in ev2 if (natural or of(ev2[o], 'done')) and o not in ended} - set(m.hunt_victims)
    check_records(case, h, both, m, over, {})
    check_best(h, res, m)
    need(killed0 <= set(m.hunt_victims) <= set(case.get('victims', ())), 'killed: {}, before {}', sorted(m.hunt_victims), killed0)
