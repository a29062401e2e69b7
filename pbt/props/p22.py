""" Summary files and the working directory. """
import re
import time
from datetime import datetime
from pathlib import Path

import numpy as np
import tables as tb
import yaml

import ckpt
import e2e
import engine as E
from logmodel import eq, plain
from props._e2e import tags
from verdict import need
from glompo.generators import BaseGenerator
from glompo.opt_selectors.spawncontrol import IterSpawnStop

OURS = re.compile(r'^(glompo_manager_log\.yml|trajectories.*\.png|opt.*_parms\.png|glompo_log\.h5)$')
PNG = b'\x89PNG\r\n\x1a\n'


def squeeze(s):
    return re.sub(r'[\s\[\]]+', '', str(s))


def files(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file()}


def read(path, what):
    text = path.read_text()
    try:
        doc = yaml.load(text, Loader=yaml.FullLoader)
    except yaml.YAMLError as e:
        need(False, '{}: the summary cannot be loaded: {}', what, e)
    need(isinstance(doc, dict), '{}: the summary is {}', what, type(doc))
    return doc


def simple(v):
    """ What is left of a setting in the file. """
    v = plain(v)
    if isinstance(v, dict):
        return {k: simple(x) for k, x in v.items()}
    if isinstance(v, list):
        return [simple(x) for x in v]
    return v


def check_yaml(doc, m, what, result, reason, crashed=False, periods=None, session=True):
    c = doc['Counters']
    got = (c['Function Evaluations'], c['Hunts Started'], c['Optimizers']['Started'], c['Optimizers']['Killed'], c['Optimizers']['Converged'])
    want = (m.f_counter, m.hunt_counter, m.o_counter, len(m.hunt_victims), m.conv_counter)
    need(got == want, '{}: evaluations, hunts, optimizers started, killed, converged are {} in the file and {} in truth', what, got, want)
    s = doc['Solution']
    need(eq(s['fx'], result.fx), '{}: fx is {!r} in the file and {!r} in the result', what, s['fx'], result.fx)
    x = list(result.x) if result.x else result.x
    need((s['x'] or None) is None if not x else eq(s['x'], list(x)), '{}: x is {} in the file and {} in the result', what, s['x'], x)
    if result.origin or s['origin']:
        need(eq(s['origin'], result.origin), '{}: origin is {} in the file and {} in the result', what, s['origin'], result.origin)
    if crashed:
        need(s['exit cond.'].startswith('Process Crash'), '{}: exit condition {!r} of a crash', what, s['exit cond.'])
    else:
        need(squeeze(s['exit cond.']) == squeeze(reason), '{}: exit condition {!r} instead of {!r}', what, s['exit cond.'], reason)
    t = doc['Settings']
    need(t['Max Jobs'] == m.max_jobs, '{}: max jobs {}', what, t['Max Jobs'])
    back = {}
    for key, where in t['Bounds'].items():
        for i in where:
            back[i] = [float(v) for v in key.strip('()').split(',')]
    need([back.get(i) for i in range(len(m.bounds))] == [[float(v) for v in b] for b in m.bounds], '{}: bounds {} for {}', what, t['Bounds'],
         m.bounds)
    need(squeeze(t['Convergence Checker']) == squeeze(m.convergence_checker), '{}: checker {!r}', what, t['Convergence Checker'])
    need((t['Hunt Conditions'] is None) == (m.killing_conditions is None) and
         (m.killing_conditions is None or squeeze(t['Hunt Conditions']) == squeeze(m.killing_conditions)),
         '{}: hunting with {!r}', what, t['Hunt Conditions'])
    g = t['x0 Generator']
    need(g['Generator'] == type(m.x0_generator).__name__, '{}: generator {}', what, g)
    sel = t['Optimizer Selector']
    need(sel['Selector'] == type(m.opt_selector).__name__ and len(sel['Available Optimizers']) == len(m.opt_selector.avail_opts),
         '{}: selector {}', what, sel)
    for i, (cls, init, call) in enumerate(m.opt_selector.avail_opts):
        o = sel['Available Optimizers'][i]
        need(o['type'] == cls.__name__ and eq(simple(o['init_kwargs']), simple(init)) and eq(simple(o['call_kwargs']), simple(call)),
             '{}: optimizer {} is described as {} instead of {}', what, i, o, (cls.__name__, init, call))
    a = doc['Assignment']
    need(a['Task'] == type(m.task).__name__, '{}: task {}', what, a['Task'])
    if periods is not None:
        need(len(a['Time']['Optimization Periods']) == periods, '{}: {} periods instead of {}', what, a['Time']['Optimization Periods'], periods)
        need([p['Start'] for p in a['Time']['Optimization Periods']] == [str(d) for d in m.dt_starts[:periods]], '{}: starts of {} are {}', what,
             m.dt_starts, a['Time']['Optimization Periods'])
    if m.checkpoint_control:
        k = doc['Checkpointing']
        need(Path(k['Directory']) == Path(m.checkpoint_control.checkpointing_dir).resolve(), '{}: checkpoints are in {}', what, k['Directory'])
        need(sorted(map(str, k['Checkpoints'])) == sorted(map(str, m.checkpoint_history)), '{}: checkpoints {} instead of {}', what,
             k['Checkpoints'], m.checkpoint_history)


def check_files(wd, m, out, level, what, run, before=None, periods=1):
    """ The files of a finished session. """
    have = files(wd)
    top = {n for n in have if '/' not in n and OURS.match(n)}
    yml, png, h5 = 'glompo_manager_log.yml' in top, [n for n in top if n.startswith('trajectories')], 'glompo_log.h5' in top
    need(yml == (level > 0), '{}: summary_files={} and there {} a summary', what, level, 'is' if yml else 'is not')
    need(bool(png) == (level > 1), '{}: summary_files={} and the plots are {}', what, level, png)
    for n in png:
        need(have[n].startswith(PNG) and b'IEND' in have[n][-16:], '{}: {} is no PNG file', what, n)
    need(h5 == (level > 2), '{}: summary_files={} and there {} a log file', what, level, 'is' if h5 else 'is not')
    left = top - {'glompo_manager_log.yml', 'glompo_log.h5'} - set(png)
    need(not left, '{}: old results {} are still there', what, left)
    for n, data in (before or {}).items():
        if '/' not in n and OURS.match(n) or n.startswith('glompo_optimizer_printstreams/'):
            continue
        need(have.get(n) == data, '{}: the foreign file {} was {}', what, n, 'changed' if n in have else 'removed')
    crash = e2e.crashed(out)
    stats = out.result.stats or {}
    if level > 0:
        doc = read(wd / 'glompo_manager_log.yml', what)
        check_yaml(doc, m, what, out.result, stats.get('end_cond'), crash, periods)
        p = doc['Assignment']['Time']['Optimization Periods'][-1]
        if getattr(run, 't_check', None) and not crash:   # The session went on at least until the condition was evaluated
            end, now = parse(p['End']), time.time()
            need(run.t_check - 0.01 <= end <= now + 0.01, '{}: it ended at {} according to the summary, but went on until {}', what, p['End'],
                 datetime.fromtimestamp(run.t_check))
        if periods == 1:
            p = doc['Assignment']['Time']
            need(p['Session'] and p['Total'], '{}: times {}', what, p)
    if level > 2:
        with tb.open_file(str(wd / 'glompo_log.h5'), 'r') as f:
            at = f.root._v_attrs
            got = (at.n_evals, at.n_hunts, at.n_opts_started, at.n_opts_killed, at.n_opts_conv)
            want = (m.f_counter, m.hunt_counter, m.o_counter, len(m.hunt_victims), m.conv_counter)
            need(got == want, '{}: counters {} in the log file instead of {}', what, got, want)
            need(eq(at.bounds, [list(b) for b in m.bounds]), '{}: bounds {} in the log file', what, at.bounds)
            need(at.task == type(m.task).__name__, '{}: task {} in the log file', what, at.task)
            if not crash:
                need(squeeze(at.exit_reason) == squeeze(stats.get('end_cond')), '{}: exit reason {!r} in the log file instead of {!r}', what,
                     at.exit_reason, stats.get('end_cond'))
    if not m.split_printstreams and not any(n.startswith('glompo_optimizer_printstreams') for n in before or {}):
        need(not (wd / 'glompo_optimizer_printstreams').exists(), '{}: print streams although they are not split', what)


class Attrs(BaseGenerator):
    """ A generator with several kinds of attributes. """
    def __init__(self, inner, attrs):
        super().__init__()
        self._inner = inner
        self.calls = 0
        for k, v in attrs.items():
            setattr(self, k, v)

    def generate(self, manager):
        self.calls += 1
        return self._inner.generate(manager)


class Setting:
    """ An object given to an optimizer as a setting. """
    def __init__(self):
        self.depth = 3
        self._hidden = 4

    def method(self):
        return 1


ODD = {'array': lambda: np.array([[1.0, 2.0], [3.0, 4.5]]), 'scalar': lambda: np.float64(2.5), 'npint': lambda: np.int64(7),
       'npbool': lambda: np.bool_(True), 'none': lambda: None, 'text': lambda: 'a: [b] # c\n  - d', 'nan': lambda: float('nan'),
       'nested': lambda: {'a': [1, {'b': 2.0}], 'c': 'x'}, 'empty': lambda: [], 'big': lambda: 1e300, 'tuple': lambda: (1, 2.5, 'z')}


def parse(text):
    return datetime.strptime(text, '%Y-%m-%d %H:%M:%S.%f' if '.' in text else '%Y-%m-%d %H:%M:%S').timestamp()


def setup_extra(case, d):
    extra = {'overwrite_existing': bool(case['overwrite']), 'checkpoint_control': None}
    if case.get('control'):
        extra['checkpoint_control'] = ckpt.control({'ckpt': {'conv': case['control'] == 'conv', 'every': case['control'] == 'often'}}, d / 'chk')
    sel = E.build_selector(case)
    for k, (cls, init, call) in enumerate(sel.avail_opts):
        for name in case.get('odd') or ():
            call[f'odd_{name}'] = ODD[name]()
    if case.get('spawn'):
        sel.allow_spawn = IterSpawnStop(case['spawn'])
    extra['opt_selector'] = sel
    if case.get('gen'):
        extra['x0_generator'] = Attrs(E.Generator(case['n_parms']), {f'odd_{n}': ODD[n]() for n in case['gen']})
    return extra


def plant(wd, pre):
    for name in pre:
        p = wd / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b'old ' + name.encode())
    return files(wd)


def session(case):
    with E.scratch() as d:
        wd = d / 'work' / 'deep'
        before = {}
        if case['pre'] is not None:
            wd.mkdir(parents=True)
            before = plant(wd, case['pre'])
        level = case['summary']
        notes = []

        def prep(m, run):
            run.user_stopped = set()
            e2e.track_slots(case, run)
            e2e.track_stops(run)
            at = case.get('dump_at')
            if at is not None:
                dump(m, d / 'dump', 'before the start', notes)
                run.check_hooks.append(lambda run, m, val: dump(m, d / f'dump{run.loops}', f'in pass {run.loops}', notes)
                                       if run.loops == at else None)
        old = any('/' not in n and OURS.match(n) for n in before)
        out, run, m = e2e.execute(case, wd, prepare=prep, extra=setup_extra(case, d))
        if old and not case['overwrite']:
            need(isinstance(out.error, FileExistsError), 'there are old results {}, overwriting is not allowed, and the outcome is {!r}', list(before),
                 out.error or out.result)
            now = files(wd)
            need(now == before, 'overwriting is not allowed but the directory changed from {} to {}', sorted(before), sorted(now))
            need(not run.evals and not run.of('start'), 'the session was begun although it is not allowed to overwrite')
            return {'ok': True, 'nt': len(before) > 1, 'tags': ['refused']}
        e2e.base(case, out, run)
        if not e2e.crash_expected(case):
            e2e.no_spurious_crash(case, out, run)
        if notes:
            raise notes[0]
        check_files(wd, m, out, level, 'session', run, before)
        if case.get('dump_at') is not None:
            dump(m, d / 'dump_end', 'after the end', notes, out.result)
            if notes:
                raise notes[0]
        return {'ok': True, 'nt': m.f_counter >= 3 and level > 0 or bool(old), 'tags': tags(case, out, run) + [f'level{level}'] +
                ['overwritten'] * old + ['dumped'] * (case.get('dump_at') is not None)}


def dump(m, path, what, notes, result=None):
    """ write_summary_file at any time. """
    try:
        m.write_summary_file(path)
        need(sorted(files(path)) == ['glompo_manager_log.yml'], 'summary written {}: files {}', what, sorted(files(path)))
        check_yaml(read(path / 'glompo_manager_log.yml', what), m, f'summary written {what}', result or m.result, 'Manual Save State',
                   session=False)
    except Exception as e:
        notes.append(e)


def resumed(case):
    """ Files of a second session and the summary of a checkpoint. """
    with E.scratch() as base:
        out, r, m, wd, cdir = ckpt.first({**case, 'split': False}, base)
        e2e.base(case, out, r)
        if not r.snaps:
            return {'ok': True, 'nt': False, 'tags': ['no-checkpoint']}
        snap = ckpt.choose(r.snaps, case['pick'])
        notes = []
        run = E.Run(case)
        m0 = ckpt.load(case, snap, run)
        dump(m0, base / 'extract', 'from a checkpoint', notes)
        if notes:
            raise notes[0]
        level = case['summary']
        stop2 = case.get('stop2') or {}
        chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
        case2 = {**case, 'stop': stop2}
        new = base / 'work2'
        E.RUN = None
        out2, run2, m2 = ckpt.second(case2, snap, r, base, convergence_checker=chk, working_dir=new, summary_files=level)
        e2e.base(case2, out2, run2)
        ckpt.merge(snap, r, run2)
        if not ckpt.check_begun(snap, stop2, run2, out2):
            return {'ok': True, 'nt': False, 'tags': ['no-second-session']}
        check_files(new, m2, out2, level, 'second session', run2, periods=2)
        return {'ok': True, 'nt': bool(run2.own_evals) and level > 0, 'tags': ['resumed', f'level{level}']}


def run(case):
    return resumed(case) if case.get('resume') else session(case)
