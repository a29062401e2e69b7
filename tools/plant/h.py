""" Small helpers for the demonstrations; run with the working directory at the root of the repository. """
import logging
import os
import sys
import tempfile
import threading
import time
import warnings
from datetime import datetime
from pathlib import Path

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import numpy as np

from glompo.common.namedtuples import IterationResult, Result
from glompo.convergence import *
from glompo.convergence.basechecker import BaseChecker
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.core._backends import ChunkingQueue
from glompo.generators import *
from glompo.hunters import *
from glompo.hunters.basehunter import BaseHunter
from glompo.opt_selectors import *
from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult
from glompo.optimizers.random import RandomOptimizer


class Opt(BaseOptimizer):
    """ Evaluates the given values: the task returns x[0]. """

    def __init__(self, *args, values=(1., 2., 3.), hold=0., delay=0., **kwargs):
        super().__init__(*args, **kwargs)
        self.values = list(values)
        self.done = 0
        self.hold = hold
        self.delay = delay
        self.stopped = False

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        while self.done < len(self.values) and not self.stopped:
            if self.delay:
                time.sleep(self.delay)
            self.done += 1
            function([self.values[self.done - 1], 0.5])
            self.check_messages()
            self._pause_signal.wait()
        t_end = time.time() + self.hold
        while time.time() < t_end and not self.stopped:
            self.check_messages()
            self._pause_signal.wait()
            time.sleep(0.01)
        if not self.stopped:
            self.message_manager(0, "Optimizer convergence")
            self.check_messages()
        return MinimizeResult()

    def callstop(self, reason=''):
        self.stopped = True


def task(x):
    return x[0]


BOUNDS = [(-1000., 1000.), (0., 1.)]


class Fn(BaseChecker):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self, manager):
        self.last_result = bool(self.fn(manager))
        return self.last_result


class Hunt(BaseHunter):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self, log, hunter, victim):
        self.last_result = bool(self.fn(log, hunter, victim))
        return self.last_result


def manager(tmp, *opts, checker=None, n=None, **kwargs):
    """ Manager with threads; starts n optimizers (default: each option once). """
    mng = GloMPOManager()
    n = len(opts) if n is None else n
    kwargs = {'max_jobs': 2, 'backend': 'threads', 'working_dir': tmp, 'x0_generator': RandomGenerator(BOUNDS),
              'killing_conditions': None, 'end_timeout': 10, **kwargs}
    mng.setup(task, BOUNDS, CycleSelector(*opts, allow_spawn=NOptimizersSpawnStop(n)),
              convergence_checker=checker or MaxFuncCalls(10 ** 9), **kwargs)
    return mng


def opt(**kwargs):
    return Opt, kwargs, None
