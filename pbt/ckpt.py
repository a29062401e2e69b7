""" Sessions with checkpoints and their resumption (PyPy side). """
import datetime
import shutil
from pathlib import Path

import numpy as np

import e2e
import engine as E
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from verdict import need, same, Violation

SETTINGS = ('bounds', 'n_parms', 'max_jobs', 'hunt_frequency', 'incumbent_sharing', 'summary_files', 'is_log_detailed',
            'split_printstreams', 'overwrite_existing', 'spawning_opts', 'aggressive_kill', 'allow_forced_terminations',
            'status_frequency', 'proc_backend', 'opts_daemonic', 'working_dir', 'end_timeout')
COUNTERS = ('f_counter', 'o_counter', 'conv_counter', 'hunt_counter', 'last_hunt')


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(i) for i in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, dict):
        return {k: plain(i) for k, i in v.items()}
    return v


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(i, j) for i, j in zip(a, b))
    return same(a, b)


def log_state(m, extras=()):
    log = m.opt_log
    if isinstance(log, FileLogger) and not getattr(getattr(log, 'pytab_file', None), 'isopen', 0):
        view = BaseLogger.__new__(BaseLogger)  # The file is only opened when the session starts: what is in memory
        view.__dict__ = log.__dict__
        log = view
    st = {'len': len(log), 'n': log.n_optimizers, 'max': log.largest_eval, 'best': plain(log.get_best_iter()), 'opts': {}}
    for o in range(1, m.o_counter + 1):
        d = {'best': plain(log.get_best_iter(o))}
        for t in ('fx', 'x', 'call_id', *extras):
            try:
                d[t] = plain(list(log.get_history(o, t)))
            except KeyError:
                d[t] = None
        d['len'] = log.len(o)
        for k in ('opt_id', 'opt_type', 't_start', 't_stop', 'end_cond'):
            v = e2e.meta(log, o, k)
            d[k] = str(v) if v is not None else None
        st['opts'][o] = d
    return st


def plugin_state(m):
    k = m.killing_conditions
    at = lambda o, a: plain(getattr(o, a, None))     # Others than ours may have been put in their place
    return {'generator': at(m.x0_generator, 'calls'), 'generator_n': at(m.x0_generator, 'n'),
            'hunter': at(k, 'n'), 'answers': at(k, 'answers'),
            'selector': (at(m.opt_selector, 'max_opts'), [o[0].__name__ for o in m.opt_selector.avail_opts],
                         [plain(o[1]) for o in m.opt_selector.avail_opts])}


def state(m):
    r = m.result
    return {'settings': {k: plain(getattr(m, k)) for k in SETTINGS}, 'counters': {k: getattr(m, k) for k in COUNTERS},
            'result': [plain(r.x), plain(r.fx), plain(r.origin), plain(r.stats)],
            'victims': sorted(m.hunt_victims), 'log': log_state(m), 'plugins': plugin_state(m),
            'history': sorted(m.checkpoint_history),
            'starts': [str(d) for d in m.dt_starts], 'ends': [str(d) for d in m.dt_ends]}


def control(case, cdir):
    c = case['ckpt']
    return E.CheckpointingControl(checkpoint_iter_frequency=c.get('every') or float('inf'),
                                  checkpoint_at_init=bool(c.get('init')), checkpoint_at_conv=bool(c.get('conv')),
                                  raise_checkpoint_fail=bool(c.get('raise')), keep_past=c.get('keep', -1),
                                  force_task_save=bool(c.get('force_task')),
                                  naming_format=c.get('format', 'c%(count)'), checkpointing_dir=cdir)


def prepare(case, wd, run):
    """ Hooks which request checkpoints and photograph the manager. """
    at = set((case['ckpt'].get('at') or []))
    run.snaps = []
    run.asked = []

    def passed(run, m, val):
        if run.loops in at and not val:
            (wd / 'CHKPT').touch()
            run.asked.append(run.loops)

    def around(run, m, when, info):
        if when == 'before':
            run.pre_f = m.f_counter
            run.pre_clock = E.CLOCK()
            return
        if info['error'] is not None or not info['new']:
            return
        s = state(m)
        s['path'] = info['new'][-1]
        s['f_before'] = run.pre_f
        s['clock'], s['last_f'] = (run.pre_clock, E.CLOCK()), m.last_iter_checkpoint
        with run.lock:
            ev = run.events[:]
        s['saved'] = {e[1]: e[2] for e in ev[info['notes']:] if e[0] == 'ckpt_save'}
        s['skipped'] = {e[1] for e in ev[info['notes']:] if e[0] == 'ckpt_skip'}
        s['over'] = {e[1] for e in ev if e[0] in ('done', 'raise', 'silent', 'exit')}
        s['begun'] = {e[1] for e in ev if e[0] in ('start', 'restart')}
        s['kill_told'] = {e[1] for e in ev[:info['notes']] if e[0] == 'stop'}
        s['evals'] = {o: list(v) for o, v in run.evals.items()}
        s['n_hunts'] = len(run.hunt_info)
        s['n_hunt_calls'] = len(run.hunts)
        s['n_events'] = len(ev)
        s['as_conv'] = bool(m.converged)
        s['slots'] = {e[1]: e[4]['workers'] for e in ev if e[0] == 'start'}
        keep = Path(s['path'])
        if keep.exists():   # The next one may overwrite or remove it
            copy = wd.parent / 'kept' / f'{len(run.snaps)}.tar.gz'
            copy.parent.mkdir(exist_ok=True)
            shutil.copy(keep, copy)
            s['copy'] = copy
        run.snaps.append(s)
    run.check_hooks.append(passed)
    run.ckpt_hooks.append(around)


def first(case, base):
    """ First session. """
    wd, cdir = base / 'work', base / 'chk'
    wd.mkdir()

    def prep(m, run):
        run.user_stopped = set()
        e2e.track_slots(case, run)
        e2e.track_stops(run)

    extra = {'checkpoint_control': control(case, cdir)}
    out, run, m = e2e.execute(case, wd, prepare=prep, extra=extra, early=lambda run: prepare(case, wd, run))
    return out, run, m, wd, cdir


def choose(snaps, pick):
    """ Mostly checkpoints with something to resume. """
    good = [s for s in snaps if s['saved']]
    if good and pick:
        return good[pick % len(good)]
    return snaps[pick % len(snaps)]


def load(case, snap, run, **over):
    m = E.VManager()
    with E.quiet() as w:
        m.load_checkpoint(snap['copy'], **over)
    run.load_warnings = [str(x.message) for x in w]
    run.manager = m
    return m


def restart_slots(snap, jobs):
    """ Slots of the optimizers resumed with this number of jobs. None if there is not at least one for each. """
    slots = {o: snap['slots'][o] for o in snap['saved']}
    if sum(slots.values()) > jobs:
        if jobs < len(slots):
            return None
        slots = dict.fromkeys(slots, jobs // len(slots))
    return slots


def merge(snap, run1, run2):
    """ Truth about the optimization as a whole, seen from the second session. """
    ev, ret, hunts = {}, {}, []
    for o, e in snap['evals'].items():
        n = snap['saved'].get(o, len(e))
        ev[o] = e[:n]
        ret[o] = [q[1] for q in ev[o]]
    for o, e in run2.evals.items():
        ev.setdefault(o, []).extend(e)
        ret.setdefault(o, []).extend(run2.returned.get(o, []))
    hunts = run1.hunt_info[:snap['n_hunts']] + run2.hunt_info
    run2.hunts = run1.hunts[:snap['n_hunt_calls']] + run2.hunts
    # Those which were not saved had ended or been told to, which they may have noticed later
    late = [e for e in run1.events[snap['n_events']:] if e[0] in ('stop', 'done', 'raise', 'silent', 'exit') and
            e[1] in snap['begun'] and e[1] not in snap['saved']]
    run2.own_events = run2.events
    run2.events = run1.events[:snap['n_events']] + late + run2.events
    run2.own_evals = run2.evals
    run2.evals, run2.returned, run2.hunt_info = ev, ret, hunts
    run2.types = {**getattr(run1, 'types', {}), **getattr(run2, 'types', {})}


def ends_at_once(snap, stop2):
    """ There is nothing to do after the resume. """
    f = stop2.get('f')
    return (f is not None and snap['counters']['f_counter'] >= f) or (not snap['saved'] and not snap['settings']['spawning_opts'])


def check_begun(snap, stop2, run2, out):
    """ Returns False if the second session rightly ended before it began. """
    if ends_at_once(snap, stop2):
        need(not run2.own_events or not [e for e in run2.own_events if e[0] in ('start', 'restart')],
             'optimizers were started although the run was over: {}', run2.own_events[:2])
        return False
    need(run2.obs, 'the resumed session ended at once although its condition was not met and there was something to do: {}',
         out.warnings)
    return True


def expected_running(snap):
    """ Optimizers which have neither ended nor been stopped at the time of the checkpoint. """
    return {o for o in snap['begun'] if o not in snap['over'] and o not in snap['victims'] and
            snap['log']['opts'][o]['end_cond'] is None}


def check_saved(case, snap):
    """ A checkpoint holds every evaluation made before it, exactly once. """
    logged = snap['log']['opts']
    need(snap['log']['len'] == snap['counters']['f_counter'] == sum(d['len'] for d in logged.values()),
         'at the checkpoint f_counter={}, the log counts {} and holds {}', snap['counters']['f_counter'],
         snap['log']['len'], {o: d['len'] for o, d in logged.items()})
    for o, n in snap['saved'].items():
        if o in snap['victims']:
            continue
        need(logged[o]['len'] == n, 'optimizer {} was saved after {} evaluations but the log saved with it has {} of them',
             o, n, logged[o]['len'])
    for o, ev in snap['evals'].items():
        if o in snap['victims'] or o in snap['saved']:
            continue
        need(logged[o]['len'] == len(ev), 'optimizer {} had ended after {} evaluations but the checkpoint has {} of them',
             o, len(ev), logged[o]['len'])
    for o in snap['saved']:
        need(o not in snap['victims'] and logged[o]['end_cond'] is None,
             'optimizer {} had been stopped ({}) but is saved to be resumed', o, logged[o]['end_cond'])
    told = (snap['kill_told'] & set(snap['begun'])) - set(snap['victims'])
    need(not told, 'optimizers {} had been told to stop before the checkpoint was made', sorted(told))
    missing = expected_running(snap) - set(snap['saved'])
    need(not missing, 'optimizers {} were running but are not part of the checkpoint', sorted(missing))


def second(case, snap, run1, base, oracle_loaded=None, **over):
    """ Loads a checkpoint and continues. """
    run = E.Run(case, case.get('sched2'))
    E.RUN = run
    run.obs, run.user_stopped = [], set()
    run.base = (snap['counters']['f_counter'], snap['counters']['o_counter'])
    m = load(case, snap, run, **over)
    if oracle_loaded:
        oracle_loaded(m, run)
    if case.get('keep_log', True):
        m.opt_log.build_traj_plot = True
    e2e.observe(case, m, run)
    e2e.track_stops(run)
    slots = restart_slots(snap, over.get('max_jobs', case['max_jobs']))
    e2e.track_slots(case, run, over.get('max_jobs', case['max_jobs']), slots, snap['counters']['o_counter'] + 1,
                    not snap['settings']['spawning_opts'])
    run.check_hooks.append(lambda run, m, val: run.obs.append(e2e.Obs(run, m, val)))
    out = e2e.finish(m, run)
    run.types = {e[1]: e[3]['cls'] for e in run.of('start')}
    return out, run, m
