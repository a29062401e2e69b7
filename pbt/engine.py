""" Runs a real GloMPOManager with scripted optimizers under a schedule owned by the harness (PyPy side).

The manager, the logger, the queue, the selectors, checkers, hunters and generators are the ones in /repo.
Only the plug-in points offered to users (task, optimizers, checkers, hunters, selectors, generators) and the
multiprocessing service objects (queue and pause event, replaced by in-process equivalents) are supplied from here, so
that the interleaving of optimizers and manager is decided by the generated case and not by the operating system.
"""
import contextlib
import gc
import io
import json
import logging
import multiprocessing
import multiprocessing.managers
import os
import pickle
import queue
import shutil
import sys
import tempfile
import threading
import time
import traceback
import warnings
from pathlib import Path

import numpy as np

# PyPy has no sys.getsizeof; the HDF5 logger needs it to size its write buffer.
try:
    sys.getsizeof(1)
except TypeError:
    sys.getsizeof = lambda o, *a: 64



class Clock:
    """ Takes the place of time.time (and so of datetime.now). Time only passes as the case says while it is frozen. """

    def __init__(self):
        self.real = time.time
        self.now = None
        self.lock = threading.Lock()
        self.drifted = False

    def __call__(self):
        with self.lock:
            if self.now is None:
                return self.real()
            if self.running is None and time.monotonic() - self.seen > self.patience:
                self.run(1)
                self.drifted = True
            if self.running is not None:
                self.now = max(self.now, self.base + (time.monotonic() - self.since) * self.running)
            return self.now

    def freeze(self, patience=4.0):
        self.now = self.real()
        self.patience = patience
        self.seen, self.running, self.drifted = time.monotonic(), None, False

    def run(self, scale):
        """ Time passes by itself from now on. """
        self.base, self.since, self.running = self.now, time.monotonic(), scale

    def advance(self, dt):
        with self.lock:
            self.now += dt
            self.seen = time.monotonic()

    def release(self):
        with self.lock:
            self.now = None


CLOCK = Clock()
time.time = CLOCK

from glompo.core import _backends  # noqa: E402
from glompo.core.manager import GloMPOManager  # noqa: E402
from glompo.core.checkpointing import CheckpointingControl  # noqa: E402
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult  # noqa: E402
from glompo.convergence import BaseChecker, MaxFuncCalls  # noqa: E402
from glompo.hunters import BaseHunter  # noqa: E402
from glompo.generators import BaseGenerator  # noqa: E402
from glompo.opt_selectors.baseselector import BaseSelector  # noqa: E402
from glompo.opt_selectors.cycle import CycleSelector  # noqa: E402

REAL_MANAGER = multiprocessing.Manager
CONSOLE = None  # What has been printed to stdout and stderr
RUN = None  # The run in progress. Scripted objects find the harness here, so that they stay picklable.
MAX_LOOPS = 4000


class Terminated(BaseException):
    """ Raised in a stand-in for a process which is terminated. """


class Void:
    def put(self, *args, **kwargs):
        pass


class FakeProcess(threading.Thread):
    """ Thread which stands in for a process: it can be terminated and has the exit codes of one. """

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        super().__init__(group, None, name, daemon=True)
        self.work, self.work_args, self.work_kw = target, args, kwargs or {}
        self.code = None
        self.wanted_daemon = daemon
        self.pid = id(self)

    @property
    def exitcode(self):
        return None if self.is_alive() else self.code

    def run(self):
        try:
            self.work(*self.work_args, **self.work_kw)
            self.code = 0
        except Terminated:
            self.code = -15
        except BaseException:
            self.code = 1
        del self.work

    def terminate(self):
        if not self.is_alive():
            return
        opt = getattr(getattr(self, 'work', None), '__self__', None)
        if opt is None:
            return
        RUN.note('terminate', opt.opt_id, RUN.loops)
        opt.killed = True
        opt._results_queue = Void()
        with RUN.gate.cond:
            RUN.gate.cond.notify_all()

    kill = terminate

    def close(self):
        pass


REAL_PROCESS = multiprocessing.Process


@contextlib.contextmanager
def fake_processes():
    multiprocessing.Process = FakeProcess
    try:
        yield
    finally:
        multiprocessing.Process = REAL_PROCESS


class Livelock(BaseException):
    """ Raised inside the manager loop when it makes no progress any more. """


# --------------------------------------------------------------------------------------------------------------------
# Schedule
# --------------------------------------------------------------------------------------------------------------------


class Gate:
    """ Lets exactly the optimizers chosen by the schedule run, one scripted operation at a time. """

    def __init__(self, sched):
        self.cond = threading.Condition()
        self.sched = sched or [[0, 1]]
        self.pos = 0
        self.threads = {}
        self.parked = set()
        self.token = None
        self.open = False
        self.queue = None
        self.gets_since_check = 0
        self.turns = 0
        self.owner = threading.current_thread()

    # Optimizer side
    def register(self, opt_id):
        with self.cond:
            self.threads[opt_id] = threading.current_thread()

    def park(self, opt):
        """ Blocks until the schedule picks this optimizer. Messages from the manager are handled meanwhile. """
        oid = opt.opt_id
        me = threading.current_thread()
        with self.cond:
            if self.threads.get(oid) is not me:
                return
            self.parked.add(oid)
            self.cond.notify_all()
        try:
            while True:
                if opt.killed:
                    raise Terminated
                if opt.ended and RUN is not None and RUN.in_checkpoint:
                    return
                if not opt.deaf and opt._signal_pipe.poll():
                    if RUN is not None and RUN.in_checkpoint and opt.late_left > 0:
                        opt.late_left -= 1
                        return True  # Busy: sees the messages only after its next operation
                    opt.check_messages()
                    opt.late_left = opt.late
                    continue
                with self.cond:
                    if self.open:
                        return
                    if self.token == oid:
                        self.token = None
                        return
                    self.cond.wait(0.002 if opt.stopped is None else 0.0005)
                    if self.token == oid:
                        self.token = None
                        return
                if (opt.stopped is not None or opt.ended) and RUN is not None and RUN.finishing():
                    return
        finally:
            with self.cond:
                self.parked.discard(oid)

    # Manager side
    def _busy(self):
        return [o for o, t in self.threads.items() if t.is_alive() and o not in self.parked]

    def snapshot(self):
        with self.cond:
            return dict(self.threads)

    def quiesce(self, limit=5.0):
        t0 = time.monotonic()
        while True:
            with self.cond:
                busy = self._busy()
                if self.token is None and not busy:
                    return
                if self.queue is not None and self.queue.full() and time.monotonic() - t0 > 0.03:
                    return
                if all(RUN.is_hung(o) for o in busy) and self.token is None:
                    return
                self.cond.wait(0.001)
            if time.monotonic() - t0 > limit:
                return

    def live(self):
        with self.cond:
            return sorted(o for o, t in self.threads.items() if t.is_alive() and o in self.parked)

    def turn(self):
        """ Executes one entry of the schedule. Returns False if there was nothing to run. """
        which, burst = self.sched[self.pos % len(self.sched)]
        self.pos += 1
        self.quiesce()
        live = self.live()
        if not live:
            return False
        oid = live[which % len(live)]
        for _ in range(max(1, burst)):
            with self.cond:
                if oid not in self.parked or not self.threads[oid].is_alive():
                    break
                self.token = oid
                self.parked.discard(oid)
                self.cond.notify_all()
            self.turns += 1
            self.quiesce()
            with self.cond:
                if self.token == oid and not self.threads[oid].is_alive():
                    self.token = None
        return True

    def release_all(self):
        with self.cond:
            self.open = True
            self.cond.notify_all()


class SchedQueue(_backends.ChunkingQueue):
    """ The results queue of /repo. Waiting on it runs the optimizers picked by the schedule instead of the clock. """

    def get(self, block=True, timeout=None):
        run = RUN
        gate = run.gate if run else None
        if gate is None or gate.open or not block or threading.current_thread() is not gate.owner or run.in_checkpoint:
            return super().get(block, min(timeout, 0.02) if timeout else timeout)
        gate.gets_since_check += 1
        gate.queue = self
        gate.quiesce()
        for k in range(12):
            if not self.empty() and k > 0:
                break
            if not self.empty() and gate.pos % 3:
                break
            if not gate.turn():
                break
        if self.empty():
            raise queue.Empty
        return super().get(False)


class FakeManager:
    """ In-process stand in for the multiprocessing.Manager service process. """

    def __init__(self):
        pass

    @staticmethod
    def ChunkingQueue(*a, **k):
        return SchedQueue(*a, **k)

    @staticmethod
    def Event():
        return threading.Event()

    Lock = staticmethod(threading.Lock)
    RLock = staticmethod(threading.RLock)

    @staticmethod
    def Queue(*a):
        return SchedQueue(*a)

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass


def use_fake_manager(on=True):
    multiprocessing.Manager = FakeManager if on else REAL_MANAGER


# --------------------------------------------------------------------------------------------------------------------
# Plug-ins
# --------------------------------------------------------------------------------------------------------------------

class OptError(Exception):
    pass


class Task:
    """ Pure function of x: the first coordinate is the function value. """

    def __init__(self, n_extra=0, headers=None, exotic=None):
        self.n_extra = n_extra
        self._heads = headers

    def __call__(self, x):
        return float(x[0])

    def detailed_call(self, x):
        return (float(x[0]), *[float(x[0]) * (i + 2) + 0.5 for i in range(self.n_extra)])

    def headers(self):
        if not self._heads:
            raise NotImplementedError
        import tables as tb
        return {h: tb.Float64Col(pos=i) for i, h in enumerate(self._heads)}


_TASK_KIND = None


def set_task_kind(kind):
    """ How tasks behave when they are saved: None, 'type', 'pickle', 'type-save', 'pickle-save', 'type-fail-value'... """
    global _TASK_KIND
    _TASK_KIND = kind


class OddTask(Task):
    """ Cannot be pickled. """

    def __reduce__(self):
        if _TASK_KIND and _TASK_KIND.startswith('type'):
            raise TypeError("cannot pickle 'generator' object")
        raise pickle.PicklingError('cannot pickle this task')

    def __deepcopy__(self, memo):
        return self


class OddSavedTask(OddTask):
    """ Cannot be pickled, but saves itself. """

    def checkpoint_save(self, path):
        (Path(path) / 'my_task.json').write_text(json.dumps([self.n_extra, self._heads]))


class OddFailingTask(OddTask):
    """ Cannot be pickled and fails to save itself. """

    def checkpoint_save(self, path):
        (Path(path) / 'my_task.part').write_text('half')
        raise {'value': ValueError, 'os': OSError, 'attr': AttributeError, 'own': OptError, 'rt': RuntimeError,
               'type': TypeError, 'pickle': pickle.PicklingError, 'ni': NotImplementedError}[_TASK_KIND.split('-')[2]]('cannot save this task')


def load_task(path):
    return Task(*json.loads((Path(path) / 'my_task.json').read_text()))


def make_task(case):
    cls = Task if not _TASK_KIND else OddSavedTask if _TASK_KIND.endswith('save') else \
        OddFailingTask if '-fail-' in _TASK_KIND else OddTask
    return cls(case.get('extras', 0), case.get('heads'))


class PlainTask:
    """ A task without a detailed call. """

    def __call__(self, x):
        return float(x[0])


def busy(where):
    """ The optimizers go on while the manager is occupied with one of its components. """
    run = RUN
    if run is not None and where in run.busy and not run.in_checkpoint and not run.gate.open and \
            threading.current_thread() is run.gate.owner and run.manager is not None and run.manager.t_start:
        run.gate.queue = getattr(run.manager, 'optimizer_queue', None)
        if run.gate.queue is not None and run.gate.queue.qsize() < 5:
            run.gate.turn()


def say(stream, how, text):
    """ Prints in the given way, returns what must arrive. """
    f = sys.stdout if stream == 'out' else sys.stderr
    if how == 'print':
        print(text, file=f)
    elif how == 'flush':
        print(text, file=f, flush=True)
    elif how == 'several':
        print(text, 1, None, sep='|', end='', file=f)
        return text + '|1|None'
    elif how == 'write':
        f.write(text)
        f.flush()
        return text
    elif how == 'lines':
        f.writelines([text, '\n'])
    elif how == 'tty':
        if not f.isatty():
            print(text, file=f)
        f.encoding
    return text + '\n'


class Scripted(BaseOptimizer):
    """ Optimizer which executes the operations listed in the case. """

    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1,
                 backend='threads', is_log_detailed=False, ops=(), lag=0, script=0, ckpt='ok', echo=None,
                 late=0, **kwargs):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed)
        self.ops = [list(o) for o in ops]
        self.lag = lag
        self.script = script
        self.ckpt = ckpt
        self.late = self.late_left = late
        self.pos = 0
        self.n_ev = 0
        self.my_id = _opt_id
        self.stopped = None
        self.deaf = False
        self.ended = False
        self.killed = False
        self.injected = []
        self.init_kw = {'echo': echo, 'workers': workers, 'backend': backend, 'detailed': is_log_detailed, **kwargs}

    def callstop(self, reason='Manager termination signal'):
        if self.stopped is None:
            self.stopped = reason
        RUN.note('stop', self.opt_id, reason)

    def message_manager(self, key, message=None):
        RUN.note('msg', self.opt_id, key, message)
        super().message_manager(key, message)

    def inject(self, x, fx):
        super().inject(x, fx)
        RUN.note('inject', self.opt_id, [float(i) for i in x], fx)

    def checkpoint_save(self, path, force=None):
        if self.ckpt == 'raise':
            RUN.note('ckpt_raise', self.opt_id)
            RUN.note('raise', self.opt_id)
            raise OptError('scripted failure while saving')
        if self.ckpt == 'fail':
            RUN.note('ckpt_skip', self.opt_id)
            return  # Produces no restart file
        if self.ckpt == 'dir':
            Path(path).mkdir()
            super().checkpoint_save(Path(path) / 'state', force)
        else:
            super().checkpoint_save(path, force)
        RUN.note('ckpt_save', self.opt_id, self.n_ev)

    @classmethod
    def checkpoint_load(cls, path, **kwargs):
        p = Path(path)
        return super().checkpoint_load(p / 'state' if p.is_dir() else p, **kwargs)

    def _minimize(self, *args, **kwargs):
        """ The pipe closes when the optimizer ends, as it does with processes or without other references. """
        run = RUN
        try:
            return super()._minimize(*args, **kwargs)
        finally:
            if run is not None:
                run.ended.add(self.opt_id)
            if run is not None and run.closing:
                self.deaf = self.ended = True
                self._signal_pipe.close()
                if run.closing > 1 and not self.killed:
                    time.sleep(0.003)
                    if run.closing > 2:
                        run.gate.park(self)  # Still alive when the manager goes on

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        run = RUN
        oid = self.opt_id
        run.gate.register(oid)
        if not self.is_restart:
            run.note('start', oid, self.script, {**kwargs, 'cls': type(self).__name__}, self.init_kw, np.array(x0, dtype=float).tolist(),
                     np.array(bounds, dtype=float).tolist())
        else:
            run.note('restart', oid, self.pos, self.n_ev, self.stopped, type(self).__name__, self.workers)
        res = MinimizeResult()
        buf = None
        if run.inplace and isinstance(x0, np.ndarray):
            x0[:] = -999.0
        while True:
            late = run.gate.park(self)
            if not late and self._signal_pipe.poll() and not self.deaf:
                self.check_messages()
            if self.stopped is not None:
                if self.lag <= 0:
                    break
                self.lag -= 1
            if self.pos >= len(self.ops):
                run.note('done', oid)
                self.message_manager(0, 'Optimizer convergence')
                break
            op = self.ops[self.pos]
            self.pos += 1
            k = op[0]
            if k == 'e':
                n = op[2] if len(op) > 2 else 1
                for _ in range(n):
                    self.n_ev += 1
                    x = [float(op[1]), float(oid), float(self.n_ev)]
                    pad = len(bounds) - 3
                    if pad > 0:
                        x += [0.5] * pad
                    if run.as_array:
                        x = np.array(x)
                    if run.inplace:  # The same object is used for all evaluations
                        if buf is None:
                            buf = x
                        buf[:] = x
                        x = buf
                    with run.lock:
                        run.evals.setdefault(oid, []).append((list(map(float, x)), float(op[1])))
                    fx = function(x)
                    if run.inplace:
                        x[0] = -999.0
                    run.returned.setdefault(oid, []).append(fx)
            elif k == 'm':
                self.message_manager(9, op[1])
            elif k == 'none9':
                self.message_manager(9)
            elif k == 'p':
                run.printed.setdefault((oid, op[1]), []).append(say(*op[1:]))
            elif k == 'raise':
                run.note('raise', oid)
                raise OptError(f'scripted failure {oid}')
            elif k == 'silent':
                run.note('silent', oid)
                return res
            elif k == 'badmsg':
                self.message_manager(op[1], 'odd message')
            elif k == 'hang':
                self.deaf = True
                run.note('hang', oid)
                with run.lock:
                    run.hung.add(oid)
                while not run.unhang.wait(0.002 if run.procs else None):
                    if self.killed:
                        raise Terminated
                run.note('unhung', oid)
                return res
            elif k == 'nop':
                pass
            self._pause_signal.wait()
        run.note('exit', oid)
        return res


class Alt(Scripted):
    """ Second optimizer type, so that type information can be told apart. """


class Monitor(BaseChecker):
    """ Convergence condition which delegates to the generated one and records what it can see of the manager. """

    def __init__(self, inner, limit=MAX_LOOPS):
        super().__init__()
        self.inner = inner
        self.limit = limit

    def __call__(self, manager):
        if RUN is not None:
            RUN.t_check = time.time()
        val = bool(self.inner(manager))
        busy('check')
        if RUN is not None:
            val = RUN.on_check(manager, val)
        self.last_result = val
        return val

    def __iter__(self):
        return iter([self, *self.inner])


class ScriptChecker(BaseChecker):
    """ Condition decided by a list of verdicts, used where the built-in ones are not the subject. """

    def __init__(self, at_f=None, at_loop=None, err_loop=None, interrupt=False):
        super().__init__()
        self.interrupt = interrupt
        self.at_f = at_f
        self.at_loop = at_loop
        self.err_loop = err_loop

    def __call__(self, manager):
        n = RUN.loops if RUN is not None else 0
        if self.err_loop is not None and n >= self.err_loop and manager.t_start:
            if self.interrupt:
                RUN.note('fault', 'interrupt')
                raise KeyboardInterrupt
            RUN.note('fault', 'checker')
            raise RuntimeError('scripted checker failure')
        self.last_result = bool((self.at_f is not None and manager.f_counter >= self.at_f) or
                                (self.at_loop is not None and n >= self.at_loop))
        return self.last_result


class ScriptHunter(BaseHunter):
    """ Hunter which answers from a list and records every question. """

    def __init__(self, answers, err_at=None):
        super().__init__()
        self.answers = list(answers) or [False]
        self.n = 0
        self.err_at = err_at

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        if self.err_at is not None and self.n == self.err_at:
            self.n += 1
            RUN.note('fault', 'hunter')
            raise RuntimeError('scripted hunter failure')
        busy('hunt')
        ans = bool(self.answers[self.n % len(self.answers)])
        self.n += 1
        if RUN is not None:
            RUN.on_hunt(log, hunter_opt_id, victim_opt_id, ans)
        self.last_result = ans
        return ans


class Generator(BaseGenerator):
    def __init__(self, n, err_at=None):
        super().__init__()
        self.n = n
        self.calls = 0
        self.err_at = err_at

    def generate(self, manager):
        busy('x0')
        self.calls += 1
        if self.err_at is not None and self.calls > self.err_at:
            RUN.note('fault', 'generator')
            raise RuntimeError('scripted generator failure')
        x0 = np.array([float(self.calls)] * self.n)
        if RUN is not None:
            RUN.note('x0', x0.tolist())
        return x0


class Selector(CycleSelector):
    """ Cycle over the scripts, limited to the number of optimizers in the case. """

    def __init__(self, *opts, max_opts=4, err_at=None):
        super().__init__(*opts)
        self.max_opts = max_opts
        self.err_at = err_at

    def select_optimizer(self, manager, log, slots_available):
        busy('select')
        if self.err_at is not None and manager.o_counter >= self.err_at:
            RUN.note('fault', 'selector')
            raise RuntimeError('scripted selector failure')
        if manager.o_counter >= self.max_opts:
            ret = False
        else:
            ret = super().select_optimizer(manager, log, slots_available)
        if RUN is not None:
            RUN.on_select(slots_available, ret[1]['workers'] if ret else ret)
        return ret


# --------------------------------------------------------------------------------------------------------------------
# Run
# --------------------------------------------------------------------------------------------------------------------

class Run:
    """ State and observations of one optimization session. """

    def __init__(self, case, sched=None):
        self.case = case
        self.gate = Gate(sched if sched is not None else case.get('sched'))
        self.lock = threading.Lock()
        self.evals = {}
        self.returned = {}
        self.events = []
        self.hung = set()
        self.unhang = threading.Event()
        self.loops = 0
        self.idle = 0
        self.last_progress = None
        self.as_array = bool(case.get('as_array'))
        self.inplace = bool(case.get('inplace'))
        self.closing = int(case.get('closing') or 0)
        self.procs = bool(case.get('procs'))
        self.dt = list(case.get('dt') or ())
        self.times = []
        self.manager = None
        self.hunts = []
        self.hunt_info = []
        self.printed = {}  # What the optimizers printed by id and stream
        self.ended = set()  # Optimizers which handle no messages any more
        self.check_hooks = []
        self.hunt_hooks = []
        self.select_hooks = []
        self.problems = []
        self.livelock = False
        self.done = False
        self.checks = []
        self.in_checkpoint = False
        self.ckpts = []
        self.ckpt_hooks = []
        self.busy = set(case.get('busy') or ())
        self.base = (0, 0)  # Evaluations and optimizers of earlier sessions

    def note(self, kind, *args):
        with self.lock:
            self.events.append((kind, *args))

    def of(self, kind):
        with self.lock:
            return [e for e in self.events if e[0] == kind]

    def is_hung(self, oid):
        return oid in self.hung

    def finishing(self):
        """ True if the manager is not going to wait on the queue any more. """
        return self.done or self.gate.open or self.last_verdict or self.crashing()

    last_verdict = False
    moved = float('inf')

    def crashing(self):
        m = self.manager
        return m is None or (m.t_end is not None and bool(m.converged)) or self.manager_stuck()

    def manager_stuck(self):
        # The manager left its loop through an exception: it is joining its children now.
        fr = sys._current_frames().get(self.gate.owner.ident)
        while fr is not None:
            if fr.f_code.co_name == 'join' and 'threading' in fr.f_code.co_filename:
                return True
            fr = fr.f_back
        return False

    def on_select(self, slots, workers):
        self.note('select', slots, workers)
        self.call(self.select_hooks, slots, workers)

    def on_hunt(self, log, hunter, victim, ans):
        self.hunts.append((self.manager.f_counter, hunter, victim, ans))
        self.call(self.hunt_hooks, log, hunter, victim, ans)

    def call(self, hooks, *args):
        """ A failing hook is a fault of the harness and must not look like one of the manager. """
        for h in hooks:
            try:
                h(self, *args)
            except Exception:
                self.problems.append(traceback.format_exc())

    def on_check(self, manager, val):
        self.manager = manager
        if manager.t_start is None or self.gate.owner is not threading.current_thread():
            return val
        self.loops += 1
        if self.gate.gets_since_check == 0:
            self.gate.turn()  # The manager did not look at the queue: let the optimizers run all the same
        self.gate.gets_since_check = 0
        prog = (manager.f_counter, manager.o_counter, self.gate.turns, len(self.events))
        if prog != self.last_progress:
            self.idle, self.moved = 0, time.monotonic()
        else:
            self.idle += 1
            if self.idle > 4:
                time.sleep(0.005)  # Threads which are about to start may need it
        self.last_progress = prog
        if self.loops > MAX_LOOPS or (self.idle > 60 and time.monotonic() - self.moved > 1.5):
            self.livelock = True
            self.gate.release_all()
            self.unhang.set()
            raise KeyboardInterrupt
        if self.dt:
            self.times.append((CLOCK(), None))
        self.call(self.check_hooks, manager, val)
        if self.dt:
            CLOCK.advance(0 if val else self.dt[self.loops % len(self.dt)])
            self.times[-1] = (self.times[-1][0], CLOCK())
            if val:
                CLOCK.run(20)
        self.checks.append((manager.f_counter, val))
        self.last_verdict = val
        return val

    def teardown(self):
        self.done = True
        self.gate.release_all()
        self.unhang.set()
        for t in self.gate.snapshot().values():
            t.join(3)


@contextlib.contextmanager
def scratch(prefix='vg_'):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """ Catches what is printed, in CONSOLE. """
    global CONSOLE
    so, se = sys.stdout, sys.stderr
    CONSOLE = (io.StringIO(), io.StringIO())
    sys.stdout, sys.stderr = CONSOLE
    hooks = threading.excepthook
    threading.excepthook = lambda *a: None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            yield w
        finally:
            sys.stdout, sys.stderr = so, se
            threading.excepthook = hooks


class NullHandler(logging.Handler):
    def handle(self, record):
        return record

    def emit(self, record):
        pass


def set_verbose(on):
    lg = logging.getLogger('glompo')
    lg.propagate = False
    if not lg.handlers:
        lg.addHandler(NullHandler())
    lg.setLevel(logging.INFO if on else logging.CRITICAL)


def build_selector(case):
    opts = []
    for i, s in enumerate(case['scripts']):
        init = {'workers': s.get('workers', 1), 'ops': s['ops'], 'lag': s.get('lag', 0), 'script': i,
                'ckpt': s.get('ckpt', 'ok'), 'echo': f'echo{i}', 'late': s.get('late', 0)}
        opts.append((Alt if s.get('alt') else Scripted, init, {'call_echo': i}))
    f = case.get('faults') or {}
    return Selector(*opts, max_opts=case.get('max_opts', len(opts)), err_at=f.get('selector'))


def build_checker(case):
    c = case.get('stop') or {}
    f = case.get('faults') or {}
    if f.get('interrupt') is not None:
        return Monitor(ScriptChecker(c.get('f'), c.get('loop'), f['interrupt'], True))
    return Monitor(ScriptChecker(c.get('f'), c.get('loop'), f.get('checker')))


def build_hunter(case):
    h = case.get('hunter')
    if h is None:
        return None
    f = case.get('faults') or {}
    return ScriptHunter(h, f.get('hunter'))


def manager_kwargs(case, wd):
    f = case.get('faults') or {}
    n = case.get('n_parms', 3)
    return dict(task=make_task(case),
                bounds=[(0, 1 + i) for i in range(n)],
                opt_selector=build_selector(case),
                working_dir=wd,
                overwrite_existing=True,
                max_jobs=case.get('max_jobs', 2),
                backend=case.get('backend', 'threads'),
                convergence_checker=build_checker(case),
                x0_generator=Generator(n, f.get('generator')),
                killing_conditions=build_hunter(case),
                share_best_solutions=bool(case.get('share')),
                hunt_frequency=case.get('hunt_freq', 1),
                status_frequency=600,
                summary_files=case.get('summary', 0),
                is_log_detailed=bool(case.get('detailed')),
                end_timeout=case.get('end_timeout', 20),
                split_printstreams=bool(case.get('split')))


class VManager(GloMPOManager):
    """ The manager, with an observation point around each checkpoint. """

    def checkpoint(self):
        run = RUN
        if run is None:
            return super().checkpoint()
        before = set(self.checkpoint_history)
        notes = len(run.events)
        run.in_checkpoint = True
        run.call(run.ckpt_hooks, self, 'before', None)
        error = None
        try:
            super().checkpoint()
        except BaseException as e:
            error = e
            raise
        finally:
            run.in_checkpoint = False
            new = sorted(self.checkpoint_history - before)
            info = {'new': new, 'error': error, 'notes': notes, 'f': self.f_counter, 'loop': run.loops}
            run.ckpts.append(info)
            run.call(run.ckpt_hooks, self, 'after', info)


class Outcome:
    result = None
    error = None
    warnings = ()
    manager = None
    run = None
    left_alive = ()


def start(manager, run):
    """ start_manager under the harness; returns an Outcome. """
    global RUN
    out = Outcome()
    out.manager, out.run = manager, run
    run.manager = manager
    RUN = run
    run.gate.owner = threading.current_thread()
    t0 = time.monotonic()
    with quiet() as w:
        try:
            out.result = manager.start_manager()
        except BaseException as e:  # noqa
            out.error = e
        out.wall = time.monotonic() - t0
        out.streams = sys.stdout, sys.stderr
        out.console = CONSOLE
        out.left_alive = sorted(o for o, t in run.gate.snapshot().items() if t.is_alive())
    out.warnings = [str(x.message) for x in w]
    return out


def new_run(case, wd, extra=None, run=None):
    """ Fresh optimization. """
    global RUN
    use_fake_manager(True)
    set_verbose(case.get('verbose'))
    run = run or Run(case)
    RUN = run
    with quiet():
        m = (VManager if case.get('ckpt') else GloMPOManager)()
        kw = manager_kwargs(case, wd)
        if extra:
            kw.update(extra)
        m.setup(**kw)
    if case.get('keep_log', True):
        m.opt_log.build_traj_plot = True  # Keep all histories in memory so that they can be compared afterwards
    return m, run


_n_runs = [0]


def housekeeping():
    _n_runs[0] += 1
    if _n_runs[0] % 25 == 0:
        gc.collect()
