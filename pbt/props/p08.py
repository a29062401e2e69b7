import tarfile

import ckpt
import e2e
import engine as E
from ckpt import eq
from glompo.generators import RandomGenerator
from glompo.hunters import MinFuncCalls
from glompo.opt_selectors import CycleSelector
from glompo.opt_selectors.spawncontrol import IterSpawnStop
from glompo.common.helpers import CheckpointingError
from verdict import need, Violation
from ._e2e import tags as run_tags


ATTR = {'share_best_solutions': 'incumbent_sharing'}


def replacements(case, base):
    """ Settings to be replaced on loading and what they should make of the attributes. """
    args, attrs = {}, {}
    for k, v in (case.get('over') or {}).items():
        want = {}
        if k == 'backend':
            want = {'proc_backend': v != 'threads', 'opts_daemonic': v != 'processes_forced'}
        elif k == 'force_terminations_after':
            want = {'allow_forced_terminations': v > 0, '_too_long': v}
        elif k == 'convergence_checker':
            v = E.Monitor(E.ScriptChecker(10 ** 9, None))
        elif k == 'x0_generator':
            v = RandomGenerator([(0.0, 1.0 + i) for i in range(case['n_parms'])])
        elif k == 'killing_conditions':
            v = MinFuncCalls(5) if v else None
        elif k == 'opt_selector':
            v = CycleSelector(E.Scripted, allow_spawn=IterSpawnStop(3))
        elif k == 'checkpoint_control':
            v = E.CheckpointingControl(checkpoint_time_frequency=77, checkpointing_dir=base / 'other') if v else None
        elif k == 'working_dir':
            v = str(base / 'elsewhere')
            want = {k: (base / 'elsewhere').resolve()}
        args[k] = v
        attrs.update(want or {ATTR.get(k, k): v})
    return args, attrs


def compare(case, snap, m, attrs):
    got = ckpt.state(m)
    for k, v in snap['settings'].items():
        if k in attrs:
            continue
        need(eq(got['settings'][k], v), 'setting {} is {} after loading, it was {}', k, got['settings'][k], v)
    for k, v in attrs.items():
        now = getattr(m, k)
        need(now is v or type(now) is type(v) and not hasattr(v, '__dict__') and now == v or k == 'working_dir' and now == v,
             '{} was to be replaced by {} on loading but is {}', k, v, now)
        for part, q in (('killing_conditions', 'hunter'), ('killing_conditions', 'answers'), ('x0_generator', 'generator'),
                        ('x0_generator', 'generator_n'), ('opt_selector', 'selector')):
            if part == k:
                snap['plugins'].pop(q)
                got['plugins'].pop(q)
    need(got['counters'] == snap['counters'], 'counters are {} after loading, they were {}', got['counters'],
         snap['counters'])
    need(eq(got['result'], snap['result']), 'the best result is {} after loading, it was {}', got['result'],
         snap['result'])
    need(got['victims'] == snap['victims'], 'killed optimizers are {} after loading, they were {}', got['victims'],
         snap['victims'])
    need(got['plugins'] == snap['plugins'], 'plug-ins are {} after loading, they were {}', got['plugins'],
         snap['plugins'])
    need(got['starts'] == snap['starts'] and got['ends'] == snap['ends'], 'time stamps {} became {}',
         (snap['starts'], snap['ends']), (got['starts'], got['ends']))
    need(set(got['history']) == set(snap['history']), 'checkpoint history {} became {}', snap['history'], got['history'])
    a, b = snap['log'], got['log']
    for k in ('len', 'n', 'max', 'best'):
        need(eq(a[k], b[k]), 'log: {} is {} after loading, it was {}', k, b[k], a[k])
    need(a['opts'].keys() == b['opts'].keys(), 'log: optimizers {} became {}', sorted(a['opts']), sorted(b['opts']))
    for o, d in a['opts'].items():
        for k in d:
            need(eq(d[k], b['opts'][o][k]), 'log of optimizer {}: {} is {} after loading, it was {}', o, k,
                 b['opts'][o][k], d[k])
    t = m.task
    need(t([2.0, 1.0, 1.0]) == 2.0 and t.n_extra == case.get('extras', 0), 'the task was not restored: {}', t)
    need(not m.converged or m.convergence_checker.last_result, 'loaded as converged')


def due(case, run, out):
    """ Checkpoints are taken when they are due. """
    c = case['ckpt']
    asked = [k for k in run.asked if k < run.loops]
    at = [i['loop'] for i in run.ckpts]
    if not e2e.crashed(out):
        for k in asked:
            need(any(k <= l <= k + 1 for l in at), 'a checkpoint was requested in pass {} but made in passes {}', k, at)
        if c.get('conv'):
            need(run.ckpts and run.ckpts[-1]['loop'] == run.loops, 'no checkpoint at convergence: {}', at)
    if c.get('init'):
        need(run.ckpts and run.ckpts[0]['loop'] == 0, 'no checkpoint at initialisation')
    if c.get('every'):
        last = 0
        by_loop = {i['loop']: i for i in run.ckpts}
        for k, ob in enumerate(run.obs[:-1], 1):
            if k in by_loop and by_loop[k]['loop'] not in [a + 1 for a in asked]:
                last = ob.f
            else:
                need(ob.f - last <= c['every'] or k in by_loop or k + 1 in by_loop,
                     'no checkpoint between evaluations {} and {} though one is due every {}', last, ob.f, c['every'])
                if k + 1 in by_loop:
                    last = run.obs[k].f if k < len(run.obs) else ob.f
    if not (c.get('every') or c.get('init') or c.get('conv')):
        need(len(at) <= len(run.asked), '{} checkpoints were made, {} were asked for', len(at), len(run.asked))


class Loader:
    def __init__(self, kind):
        self.kind, self.paths = kind, []

    def __call__(self, path):
        self.paths.append(path)
        if self.kind == 'raise':
            raise ValueError('scripted failure of the loader')
        return 5 if self.kind == 'bad' else E.Task(7)


def task_sources(case, snap, base):
    """ Checkpoint first, then the loader, then the task given. """
    src = case['task_from']
    path = snap['copy']
    if not src['saved']:
        path = base / 'stripped.tar.gz'
        with tarfile.open(snap['copy'], 'r:gz') as a, tarfile.open(path, 'w:gz') as b:
            for q in a.getmembers():
                if q.name.strip('./') != 'task':
                    b.addfile(q, a.extractfile(q) if q.isfile() else None)
    given = E.Task(8) if src['task'] else None
    loader = Loader(src['loader']) if src['loader'] else None
    want = case.get('extras', 0) if src['saved'] else 7 if src['loader'] == 'ok' else 8 if given else None
    m = E.VManager()
    try:
        with E.quiet():
            m.load_checkpoint(path, task_loader=loader, task=given)
    except Exception as e:
        need(want is None, 'loading failed with task sources {}: {!r}', src, e)
        need(type(e).__name__ == 'CheckpointingError', 'loading without a task raised {!r}', e)
        return
    need(want is not None, 'loaded without any task: {}', m.task)
    need(m.task.n_extra == want, 'with task sources {} the task used is number {} instead of {}', src, m.task.n_extra, want)


def run(case):
    with E.scratch() as base:
        out, r, m, wd, cdir = ckpt.first(case, base)
        e2e.base(case, out, r)
        e2e.no_spurious_crash(case, out, r)
        due(case, r, out)
        t = run_tags(case, out, r)
        t.append('checkpoints' if r.snaps else 'no-checkpoint')
        if not r.snaps:
            return {'ok': True, 'nt': False, 'tags': t}
        snap = ckpt.choose(r.snaps, case['pick'])
        run2 = E.Run(case, case.get('sched2'))
        E.RUN = run2
        over, attrs = replacements(case, base)
        jobs = over.get('max_jobs', case['max_jobs'])
        slots = ckpt.restart_slots(snap, jobs)
        if slots is None:
            try:
                ckpt.load(case, snap, run2, **over)
            except CheckpointingError:
                t.append('too-few-slots')
                return {'ok': True, 'nt': False, 'tags': t}
            need(False, '{} optimizers were to be resumed with {} jobs', len(snap['saved']), jobs)
        m2 = ckpt.load(case, snap, run2, **over)
        need(m2.is_initialised, 'the manager is not initialised after loading')
        compare(case, snap, m2, attrs)
        if attrs:
            t.append('replaced')
        if case.get('task_from'):
            task_sources(case, snap, base)
        t.append('restored' if snap['saved'] else 'nothing-restored')
        return {'ok': True, 'nt': bool(snap['saved']) and snap['counters']['f_counter'] > 0, 'tags': t}
