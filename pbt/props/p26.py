""" The visualisation: what it shows of a session, or of a sequence of events. """
import copy
import math
from pathlib import Path

import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import numpy as np

import ckpt
import e2e
import engine as E
from verdict import need, same
from ._e2e import tags
from glompo.core import scope as module
from glompo.core.scope import GloMPOScope

INF = float('inf')
MARKS = {'kill': 'opt_kill', 'norm': 'opt_norm', 'crash': 'opt_crash', 'pause': 'pause', 'chkpt': 'chkpt'}


class Writer:
    """ Stands in for the movie writer. """
    made = []

    def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None):
        self.kw = {'fps': fps, 'metadata': metadata}
        self.frames, self.setups, self.finished, self.cleaned = 0, [], 0, 0
        Writer.made.append(self)

    def setup(self, fig, outfile, dpi=None, frame_prefix=None):
        self.setups.append((fig, outfile, dpi))

    def grab_frame(self, **kw):
        need(self.setups, 'a frame was taken before the movie was set up')
        need(not self.finished, 'a frame was taken after the movie was finished')
        self.frames += 1

    def finish(self):
        self.finished += 1

    def cleanup(self):
        self.cleaned += 1


def value(v, log):
    if not log:
        return v
    with np.errstate(all='ignore'):
        return float(np.log10(v))


def truth(points, elitism, log):
    """ [(x, y)] as evaluated -> as shown. """
    rows, best = [], None
    for x, y in points:
        if elitism:
            if y == y and (best is None or y < best):
                best = y
            y = y if best is None else best
        rows.append((float(x), value(y, log)))
    return rows


def stream(line):
    return [(float(a), float(b)) for a, b in zip(line.get_xdata(), line.get_ydata())]


def check_stream(what, got, want, cut, x_max, slack):
    """ cut: number of evaluations to show. Points which are older may be shown until the next time it is drawn. """
    close = lambda a, b: a[0] == b[0] and (same(a[1], b[1]) or abs(a[1] - b[1]) <= 1e-12 * abs(b[1]))
    must = [p for p in want if cut is None or p[0] >= x_max - cut + 1]
    k = len(want) - len(got)
    need(k >= 0 and all(close(a, b) for a, b in zip(got, want[k:])), '{} is shown as {} instead of {}', what, got[-12:], want[-12:])
    need(len(got) >= len(must), '{}: the last {} points should be shown, there are {}', what, len(must), len(got))
    if cut is not None:
        need(all(p[0] >= x_max - cut - slack for p in got), '{}: points up to {} are shown, although only the last {} of {} evaluations should be',
             what, got[:1], cut, x_max)


def check_axes(scope, args, x_max, drawn):
    """ drawn: points shown. """
    xr, yr = args.get('x_range', 300), args.get('y_range')
    lo, hi = scope.ax.get_xlim()
    if isinstance(xr, tuple):
        need((lo, hi) == xr, 'the x axis is {} to {} instead of {}', lo, hi, xr)
    elif drawn:
        good = [p for p in drawn if math.isfinite(p[1])]
        need(all(lo <= p[0] <= hi for p in good), 'the x axis is {} to {}, but points go from {} to {}', lo, hi, good[:1], good[-1:])
        if xr is not None and good:
            need(lo >= x_max - 1.1 * xr - 2, 'the x axis is {} to {}, only the last {} of {} evaluations should be shown', lo, hi, xr, x_max)
    if yr:
        need(scope.ax.get_ylim() == tuple(yr), 'the y axis is {} instead of {}', scope.ax.get_ylim(), yr)
    elif drawn and not isinstance(xr, tuple):
        lo, hi = scope.ax.get_ylim()
        good = [p[1] for p in drawn if math.isfinite(p[1]) and abs(p[1]) < 1e100]
        need(all(lo <= y <= hi for y in good), 'the y axis is {} to {}, but values go from {} to {}', lo, hi, min(good or [0]), max(good or [0]))


def scope_args(case):
    a = dict(case['args'])
    for k in ('x_range', 'y_range'):
        if isinstance(a.get(k), list):
            a[k] = tuple(a[k])
    return a


def calm(scope):
    """ Pictures are not drawn, this takes too long. """
    scope.fig.canvas.draw = lambda *a, **k: None
    scope.fig.canvas.flush_events = lambda *a, **k: None


def run(case):
    old = module.MyFFMpegWriter
    module.MyFFMpegWriter = Writer
    Writer.made = []
    before = plt.get_fignums()
    try:
        with E.scratch() as base:
            r = {'direct': direct, 'session': session, 'bad': bad}[case['kind']](case, base)
        need(plt.get_fignums() == before, 'figures are left open: {}', sorted(set(plt.get_fignums()) - set(before)))
        return r
    finally:
        module.MyFFMpegWriter = old
        plt.close('all')


def bad(case, base):
    a = scope_args(case)
    with E.quiet():
        try:
            GloMPOScope(**a)
        except (ValueError, TypeError):
            return {'ok': True, 'nt': True, 'tags': ['refused']}
    need(False, 'accepted: {}', a)


def direct(case, base):
    a = scope_args(case)
    with E.quiet():
        s = GloMPOScope(**a)
        calm(s)
        if a.get('record_movie'):
            folder = {'str': str(base), 'path': base}.get(case['path'])
            s.setup_moviemaker(folder) if folder else s.setup_moviemaker()
            name = (a.get('movie_kwargs') or {}).get('outfile', 'glomporecording.mp4')
            want = (base / name).with_suffix('.mp4') if folder else Path(name)
            need(Path(Writer.made[0].setups[0][1]) == want, 'the movie is recorded to {} instead of {}', Writer.made[0].setups, want)
        r = play(case, base, a, s)
        if a.get('record_movie'):
            s.generate_movie()
            w = Writer.made[0]
            need(w.finished == 1 and w.frames, 'frames: {}, finished: {}', w.frames, w.finished)
            r['tags'].append('movie')
        return r


def play(case, base, a, s):
    every, cut = a.get('events_per_flush', 10), a.get('x_range', 300)
    cut = cut if isinstance(cut, int) else None
    log, elite = a.get('log_scale', False), a.get('elitism', False)
    pts, marks, x, n, t = {}, {k: [] for k in MARKS}, 0, 0, set()
    for op in case['ops']:
        if op[0] == 'add':
            n += 1
            s.add_stream(n, op[1])
            pts[n] = []
        elif op[0] == 'save':
            folder = base / 'chk'
            folder.mkdir(exist_ok=True)
            s.checkpoint_save(folder)
            s.close_fig()
            s = GloMPOScope()
            s.load_state(folder)
            calm(s)
            t.add('saved')
        elif not n:
            continue
        elif op[0] == 'pt':
            o = op[1] % n + 1
            x += op[3]
            s.update_optimizer(o, (x, op[2]))
            pts[o].append((x, op[2]))
        else:
            o = op[1] % n + 1
            getattr(s, {'kill': 'update_kill', 'norm': 'update_norm_terminate', 'crash': 'update_crash_terminate', 'pause': 'update_pause',
                        'chkpt': 'update_checkpoint'}[op[0]])(o)
            shown = truth(pts[o], elite, log)
            far = s.get_farthest_pt(o)
            need(far is None or shown and far[0] == shown[-1][0], 'the farthest point of {} is {} instead of {}', o, far, shown[-1:])
            if shown and (cut is None or shown[-1][0] >= x - cut + 1):
                need(far is not None, 'the farthest point of {} is missing', o)
            if far is not None:
                marks[op[0]].append(shown[-1])
                t.add('marked')
    if n == 0:
        s.close_fig()
        return {'ok': True, 'nt': False, 'tags': []}
    extra = n + 1
    s.add_stream(extra)
    for i in range(every + 2):      # Without points only the picture is renewed
        s.update_pause(extra)
    need(s.n_streams == extra and len(s.opt_streams) == extra, '{} streams for {} optimizers', s.n_streams, extra)
    drawn = []
    for o in range(1, n + 1):
        got = stream(s.opt_streams[o])
        check_stream(f'optimizer {o}', got, truth(pts[o], elite, log), cut, x, 1)
        drawn += got
    for k, name in MARKS.items():
        got = stream(s.gen_streams[name])
        check_stream(k, sorted(got), sorted(marks[k]), cut, x, 1)   # Not in the order of their points
        drawn += got
    check_axes(s, a, x, drawn)
    if cut is not None and x > cut:
        t.add('truncated')
    labels = [e.get_label() for e in s.leg_elements][-n - 1:-1]
    want = [f'{i}: {op[1]}' if op[1] else f'Optimizer {i}' for i, op in enumerate([o for o in case['ops'] if o[0] == 'add'], 1)]
    need(labels == want, 'the legend is {} instead of {}', labels, want)
    colors = [s.opt_streams[o].get_color() for o in range(1, n + 1)]
    need(len(set(map(tuple, colors))) == n, 'optimizers share colors: {}', colors)
    s.close_fig()
    return {'ok': True, 'nt': bool(drawn), 'tags': sorted(t) + ['elitism'] * elite + ['log'] * log}


def watch(m, run):
    """ Ends and messages which reached the manager when evaluations of their optimizers had been recorded. """
    run.sure_norm, run.sure_crash = set(), set()
    log = m.opt_log
    put, msg = log.put_metadata, log.put_message

    def put_metadata(o, key, v):
        if key == 'end_cond' and str(v) == 'Optimizer convergence' and log.len(o):
            run.sure_norm.add(o)
        return put(o, key, v)

    def put_message(o, v):
        if 'Traceback' in str(v) and log.len(o):
            run.sure_crash.add(o)
        return msg(o, v)
    log.put_metadata, log.put_message = put_metadata, put_message


def session(case, base):
    a = scope_args(case)
    wd = base / 'work'
    wd.mkdir()
    given = copy.deepcopy(a)
    movie = a.get('record_movie')

    def prep(m, run):
        run.user_stopped = set()
        e2e.track_slots(case, run)
        e2e.track_stops(run)
        if not case.get('later'):
            calm(m.scope)
        watch(m, run)
    extra = {'checkpoint_control': None} if case.get('later') else {'visualisation': True, 'visualisation_args': a, 'checkpoint_control': None}
    if case.get('ckpt'):
        extra['checkpoint_control'] = ckpt.control(case, base / 'chk')
    out, run, m = e2e.execute(case, wd, prepare=prep, extra=extra, early=lambda run: case.get('ckpt') and ckpt.prepare(case, wd, run))
    need(a == given, 'the settings given by the user were changed to {}', a)
    if case.get('later'):
        e2e.base(case, out, run)
        need(m.scope is None, 'there is a scope although none was asked for')
    else:
        judge(case, a, out, run, m)
    t = tags(case, out, run) + ['movie'] * bool(movie)
    w = Writer.made
    if movie:
        need(len(w) == 1 and len(w[0].setups) == 1, 'the movie was set up {} times', [x.setups for x in w])
        fig, name, dpi = w[0].setups[0]
        want = (wd / (a.get('movie_kwargs') or {}).get('outfile', 'glomporecording.mp4')).with_suffix('.mp4')
        need(fig is m.scope.fig and Path(name) == want, 'the movie is recorded to {} instead of {}', name, want)
        need(w[0].finished == (not e2e.crashed(out)), 'the movie was finished {} times, end: {}', w[0].finished, out.result.stats)
        need(w[0].cleaned, 'the movie writer was not closed')
        if out.result.stats and m.f_counter > a.get('events_per_flush', 10) + 1:
            need(w[0].frames >= m.f_counter // (a.get('events_per_flush', 10) + 1), '{} frames for {} evaluations', w[0].frames, m.f_counter)
    else:
        need(not w, 'a movie was recorded although this was not asked for')
    if not run.snaps if case.get('ckpt') else True:
        return {'ok': True, 'nt': m.f_counter > 0, 'tags': t}
    Writer.made = []
    snap = ckpt.choose(run.snaps, case['pick'])
    stop2 = case.get('stop2') or {}
    chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
    out2, run2, m2 = ckpt.second({**case, 'stop': stop2, 'faults': None}, snap, run, base, convergence_checker=chk,
                                 oracle_loaded=lambda m, run: (calm(m.scope), watch(m, run)),
                                 **({'visualisation': True} if case.get('later') else {}))
    e2e.base(case, out2, run2)
    ckpt.merge(snap, run, run2)
    if ckpt.check_begun(snap, stop2, run2, out2):
        judge(case, {} if case.get('later') else a, out2, run2, m2, resumed=snap)
        t += ['resumed'] + ['scope added'] * bool(case.get('later'))
    else:
        m2.scope.close_fig()
    return {'ok': True, 'nt': m.f_counter > 0, 'tags': t}


def judge(case, a, out, run, m, resumed=None):
    e2e.base(case, out, run)
    if not e2e.crash_expected(case):
        e2e.no_spurious_crash(case, out, run)
        e2e.check_told(case, out, run)
    e2e.check_accounting(case, out, run)
    s = m.scope
    every, cut = a.get('events_per_flush', 10), a.get('x_range', 300)
    cut = cut if isinstance(cut, int) else None
    log, elite = a.get('log_scale', False), a.get('elitism', False)
    begun = {e[1] for e in run.of('start')} if e2e.crash_expected(case) else set(range(1, m.o_counter + 1))
    since = 0
    if case.get('later'):
        begun, since = {e[1] for e in run.own_events if e[0] in ('start', 'restart')}, resumed['counters']['f_counter']
    need(begun <= set(s.opt_streams) <= set(range(1, m.o_counter + 1)), 'streams {} for {} optimizers', sorted(s.opt_streams), sorted(begun))
    points, owner = {}, {}
    for o, h in run.hist.items():
        if o not in s.opt_streams:
            continue
        pts = [(c, v) for c, v in zip(h['call_id'], h['fx']) if c > since]
        points[o] = truth(pts, elite, log)
        check_stream(f'optimizer {o}', stream(s.opt_streams[o]), points[o], cut, m.f_counter, INF)
        owner.update({p[0]: (o, p) for p in points[o]})
    seen = {}
    for k, name in MARKS.items():
        for x, y in stream(s.gen_streams[name]):
            need(x in owner, 'mark {} at {}, where there is no evaluation', k, x)
            o, p = owner[x]
            need(same(y, p[1]), 'mark {} of optimizer {} at {} instead of {}', k, o, (x, y), p)
            seen.setdefault(k, []).append(o)
    count = lambda k, o: seen.get(k, []).count(o)
    for o in points:
        if cut is None and points[o]:
            kills = count('kill', o)
            need(kills == (o in m.hunt_victims), 'optimizer {} has {} kill marks, victims are {}', o, kills, sorted(m.hunt_victims))
            if kills:
                at = [p[0] for p in stream(s.gen_streams['opt_kill']) if owner[p[0]][0] == o]
                need(at == [points[o][-1][0]], 'optimizer {} was killed after evaluation {}, the mark is at {}', o, points[o][-1][0], at)
        need(count('norm', o) <= 1, 'optimizer {} converged {} times', o, count('norm', o))
        cond = run.hist[o]['meta']['end_cond']
        if count('norm', o):
            need('convergence' in str(cond) or o in m.hunt_victims, 'optimizer {} is shown as converged, its end was {}', o, cond)
        allowed = len([e for e in run.of('raise') if e[1] == o]) + len([e for e in run.of('msg') if e[1] == o])
        need(count('crash', o) <= allowed, 'optimizer {} is shown as crashed {} times', o, count('crash', o))
    if resumed is None and not case.get('ckpt'):
        need('pause' not in seen and 'chkpt' not in seen, 'checkpoints are shown although none were made')
    if cut is None and not since:
        for o in run.sure_norm:
            need(count('norm', o) == 1, 'optimizer {} converged but is not shown so', o)
        for o in run.sure_crash:
            need(count('crash', o) > 0, 'optimizer {} crashed but is not shown so', o)
    if cut is None and not resumed:
        saves = [o for sn in getattr(run, 'snaps', []) for o in sn['saved'] if sn['log']['opts'][o]['len']]
        need(sorted(seen.get('chkpt', [])) == sorted(saves), 'checkpoint marks at optimizers {}, but those saved are {}', sorted(seen.get('chkpt', [])),
             sorted(saves))
