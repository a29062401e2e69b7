""" Files by which users intervene in a session. """
import os

import ckpt
import e2e
import engine as E
from verdict import need
from . import p09
from ._e2e import tags

TEXT = 'User STOP file intervention.'


def number(name):
    """ Optimizer meant by a file, None if it is none of ours. """
    head, sep, rest = name.partition('STOP_')
    return int(rest) if sep and not head and rest.isdigit() and rest.isascii() else None


class Desk:
    """ The user: leaves files and watches what becomes of them. """

    def __init__(self, case, wd, run):
        self.wd, self.run = wd, run
        self.acts = {}
        for loop, name in case['acts']:
            self.acts.setdefault(loop, []).append(name)
        self.waiting = {}   # File -> is it to be handled in the next pass
        self.chkpt = None
        self.faults = []
        self.handled = set()
        self.foreign = {}
        self.manual = 0
        self.last = None
        self.control = bool(case['control'])

    def over(self):
        return {e[1] for k in ('done', 'raise', 'silent', 'exit') for e in self.run.of(k)} | self.run.ended

    def __call__(self, run, m, val):
        alive = {o for o, t in run.gate.snapshot().items() if t.is_alive() and o <= m.o_counter} - self.over()
        names = {p.name for p in self.wd.iterdir()}
        # What has become of the files there were at the last pass
        for name in sorted(self.waiting):
            k = number(name)
            if name not in names:
                if k not in m.hunt_victims:
                    self.faults.append(f'{name} is gone but optimizer {k} was not stopped')
                self.handled.add(k)
                del self.waiting[name]
            elif k in self.last[0] and k in alive and k not in m.hunt_victims:
                self.faults.append(f'{name} was ignored although optimizer {k} runs')
        if self.chkpt:
            n = len(run.ckpts) - self.chkpt[0]
            if 'CHKPT' in names:
                self.faults.append('CHKPT is still there one pass later')
            if n < 1 or (n > 1 and not self.control):
                self.faults.append(f'{n} checkpoints were made for one CHKPT')
            if not self.control and m.checkpoint_control is not None:
                self.faults.append('the manager has a checkpoint control afterwards, but was given none')
            self.manual += 1
            self.chkpt = None
        for name, data in self.foreign.items():
            if name not in names or (self.wd / name).read_text() != data:
                self.faults.append(f'the foreign file {name} was changed or removed')
        self.last = (alive,)
        if val:
            return
        for name in self.acts.get(run.loops, ()):
            if name == 'CHKPT':
                (self.wd / name).touch()
                self.chkpt = (len(run.ckpts),)
            elif number(name) is not None:
                (self.wd / name).touch()
                self.waiting[name] = True
            else:
                self.foreign[name] = 'keep ' + name
                (self.wd / name).write_text(self.foreign[name])


def finished(case, out, run, m, desk, logged=True):
    need(not desk.faults, '{}', desk.faults[:1])
    names = {p.name for p in desk.wd.iterdir()}
    for name in desk.waiting:   # In the last pass
        if name not in names:
            desk.handled.add(number(name))
    run.user_stopped = set(desk.handled)
    need(run.user_stopped <= set(m.hunt_victims), 'optimizers {} were stopped by the user, {} are recorded as stopped', run.user_stopped,
         set(m.hunt_victims))
    told = {e[1] for e in run.of('stop')}
    for o in run.user_stopped:
        need(o in told or o in desk.over() or o in run.hung, 'optimizer {} was stopped by the user but never told', o)
    by_hunter = {h['victim'] for h in run.hunt_info if h['ans']}
    for o, h in run.hist.items():
        cond = str(h['meta']['end_cond'])
        if o in run.user_stopped and o not in by_hunter:
            need('GloMPO Termination' in cond and TEXT in cond and 'Hunter: None' in cond, 'optimizer {} was stopped by the user but ended: {}',
                 o, cond)
        else:
            need(TEXT not in cond, 'optimizer {} was not stopped by the user but ended: {}', o, cond)


def run(case):
    old = os.getcwd()
    try:
        with E.scratch() as base:
            (base / 'cwd').mkdir()
            os.chdir(str(base / 'cwd'))
            return inside(case, base)
    finally:
        os.chdir(old)


def inside(case, base):
    wd, cdir = base / 'work', base / 'chk'
    wd.mkdir()
    held = []

    def prep(m, run):
        run.user_stopped = set()
        e2e.track_slots(case, run)
        e2e.track_stops(run)
        held.append(Desk(case, wd, run))
        run.check_hooks.append(held[0])

    case = {**case, 'ckpt': case['control'] or {'manual': True}}
    out, run, m = e2e.execute(case, wd, prepare=prep, early=lambda run: ckpt.prepare(case, wd, run),
                              extra={'checkpoint_control': ckpt.control(case, cdir) if case['control'] else None})
    desk = held[0]
    e2e.base(case, out, run)
    e2e.no_spurious_crash(case, out, run)
    finished(case, out, run, m, desk)
    e2e.check_kills(case, out, run)
    e2e.check_accounting(case, out, run)
    e2e.check_told(case, out, run)
    e2e.check_slots(case, out, run)
    t = tags(case, out, run) + ['stopped'] * bool(desk.handled) + ['checkpointed'] * bool(desk.manual) + \
        ['ignored'] * bool(desk.waiting) + ['foreign'] * bool(desk.foreign)
    need(not list((base / 'cwd').iterdir()), 'files appeared in the current directory: {}', list((base / 'cwd').iterdir()))
    home = cdir if case['control'] else wd / 'checkpoints'
    for c in run.ckpts:
        need(c['error'] is None, 'the checkpoint failed: {}', c['error'])
    if run.ckpts:
        need(home.is_dir() and list(home.iterdir()), 'a checkpoint was made, but there is none in {}', home)
    for s in run.snaps:
        need(E.Path(s['path']).parent == home, 'a checkpoint was made at {} instead of {}', s['path'], home)
        ckpt.check_saved(case, s)
    if not (run.snaps and case['sched2']):
        return {'ok': True, 'nt': bool(desk.handled or desk.manual), 'tags': t}
    snap = ckpt.choose(run.snaps, case['pick'])
    stop2 = {'loop': case['loop2']}
    chk = E.Monitor(E.ScriptChecker(None, case['loop2']))
    out2, run2, m2 = ckpt.second({**case, 'stop': stop2}, snap, run, base, convergence_checker=chk)
    e2e.base(case, out2, run2)
    e2e.no_spurious_crash(case, out2, run2)
    ckpt.merge(snap, run, run2)
    if ckpt.check_begun(snap, stop2, run2, out2):
        p09.resumed(case, snap, run, out2, run2, m2, case['max_jobs'])
        t.append('resumed')
    return {'ok': True, 'nt': True, 'tags': t}
