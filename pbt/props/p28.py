""" What is due after some time: checkpoints, status messages, time limits, terminations of optimizers without response. """
import logging
import re
from datetime import timedelta

import ckpt
import e2e
import engine as E
from verdict import need
from ._e2e import tags
from glompo.convergence import MaxSeconds

INF = float('inf')


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


class Diary:
    """ What has happened, pass by pass. """

    def __init__(self, case, run, records):
        self.case, self.run, self.records = case, run, records
        self.rows = []
        self.n_rec = 0

    def __call__(self, run, m, val):
        now = {e[1] for e in run.of('terminate')}
        stat = [r for r in self.records.seen[self.n_rec:] if r.startswith('Status: \n')]
        self.n_rec = len(self.records.seen)
        opts = range(1, m.o_counter + 1)
        self.rows.append(dict(i=len(run.times) - 1, t=run.times[-1][0], loop=run.loops, f=m.f_counter, lens={o: m.opt_log.len(o) for o in opts},
                              alive={o for o, t in run.gate.snapshot().items() if t.is_alive()},
                              done={e[1] for k in ('done', 'raise', 'silent', 'exit') for e in run.of(k)} | run.ended,
                              victims=dict(m.hunt_victims), forced=now, status=stat, val=val, chk=len(run.ckpts),
                              fx=m.result.fx, last={o: m.opt_log.get_history(o, 'fx')[-1] for o in opts if m.opt_log.len(o)},
                              slots={o: p.slots for o, p in m._optimizer_packs.items()},
                              up={o for o, p in m._optimizer_packs.items() if p.process.is_alive()},
                              conds={o: str(e2e.meta(m.opt_log, o, 'end_cond')) for o in opts}))


def check_forced(case, run, m, rows, resumed=()):
    """ Returns the optimizers which had to be terminated by force. """
    limit = case.get('force', -1)
    allowed = limit > 0 and case['backend'] != 'threads'
    last, killed_at, gone = {}, {}, set()
    prev = None
    for r in rows:
        begun = set(r['lens']) if prev is None else {o for o in r['lens'] if o not in prev['lens']}
        for o in begun:
            last[o] = r['t']
        for o in r['lens']:
            if prev is not None and o in prev['lens'] and r['lens'][o] != prev['lens'][o]:
                last[o] = r['t']
        for o in r['victims']:
            killed_at.setdefault(o, r['t'])
        new = r['forced'] - gone
        before = prev['alive'] - prev['done'] - prev['forced'] if prev else set()
        for o in new:
            if case.get('aggressive') and o in r['victims'] and killed_at[o] == r['t']:
                continue
            need(allowed, 'optimizer {} was terminated by force, which is not allowed', o)
            if o in r['victims']:
                need(r['t'] - killed_at[o] > limit, 'optimizer {} was terminated by force {} s after it was killed, the limit is {}', o,
                     r['t'] - killed_at[o], limit)
            else:
                need(r['t'] - last[o] > limit, 'optimizer {} was terminated by force {} s after its last result, the limit is {}', o,
                     r['t'] - last[o], limit)
        for o in (before & r['alive']) - r['done'] - r['forced']:
            if allowed:
                since = killed_at.get(o, last[o])
                need(r['t'] - since <= limit, 'optimizer {} has not responded for {} s, the limit is {}, but it was not terminated', o,
                     r['t'] - since, limit)
            if case.get('aggressive') and case['backend'] != 'threads':
                need(o not in r['victims'], 'optimizer {} was killed but not terminated, although kills are to be aggressive', o)
        for o in new:
            if o not in r['victims']:
                need('Forced GloMPO Termination' in r['conds'][o], 'optimizer {} was terminated by force but its end is recorded as {}', o,
                     r['conds'][o])
        gone |= new
        for o in gone - set(r['victims']):
            need('Forced GloMPO Termination' in r['conds'][o], 'optimizer {} was terminated by force but later its end is recorded as {}', o,
                 r['conds'][o])
        prev = r
    return gone


def check_checkpoints(case, run, rows, t0):
    """ Periodic checkpoints are made exactly when they are due. """
    c = case.get('ckpt') or {}
    every, secs = c.get('every') or INF, c.get('secs') or INF
    last_f, last_t = case.get('_last_f', 0), t0
    for a, b in zip(rows, rows[1:]):   # Checkpoints are made after the check
        n = b['chk'] - a['chk']
        due = None
        if a['t2'] - last_t > secs:
            due, last_t = 'time', a['t2']
        elif a['f'] - last_f > every:
            due, last_f = 'evaluations', a['f']
        need(n == (due is not None), '{} checkpoints were made in pass {}: {:.0f} s (limit {}) and {} evaluations (limit {}) since the last one',
             n, a['loop'], a['t2'] - (last_t if due != 'time' else t0), secs, a['f'] - last_f, every)


def check_status(case, run, rows, t0, m):
    freq, last = case.get('status', 600), t0
    for a, b in zip(rows, rows[1:]):
        due = a['t2'] - last > freq
        need(len(b['status']) == due, '{} status messages in pass {}, {:.0f} s after the last one (every {} s)', len(b['status']), a['loop'],
             a['t2'] - last, freq)
        if due:
            last = a['t2']
            s = b['status'][0]
            text = re.sub(r'\.+', '.', s)
            need(f'Function Evaluations:. {a["f"]:,}'.replace(',', ' ') in text, 'after {} evaluations the status is {}', a['f'], s)
            need(f'Time Elapsed:. {timedelta(seconds=a["t2"] - t0)}' in text, 'elapsed: {} in {}', a['t2'] - t0, s)
            best = None if a['fx'] is None else f'{a["fx"]:.3E}'
            need(f'Overall f_best:. {best}' in text, 'the best is {}, the status is {}', best, s)
            seen = {int(o): v for o, v in re.findall(r'Optimizer (\d+)\. ?(\S+)\n', text)}
            for o, v in seen.items():
                need(o in a['last'] and v == f"{a['last'][o]:.3E}", 'the last value of optimizer {} is {}, the status is {}', o, a['last'].get(o), s)
                need(o in a['up'], 'optimizer {} is dead, the status is {}', o, s)
            for o in a['up'] & b['up'] & set(a['last']):
                need(o in seen or o not in a['slots'], 'optimizer {} is alive, the status is {}', o, s)
            low = sum(n for o, n in a['slots'].items() if o in b['up'])
            high = sum(n for o, n in a['slots'].items() if o in a['up'])
            k = int(re.search(r'Slots Filled:\. (\d+)/', text).group(1))
            need(low <= k <= high, '{} to {} slots were filled, the status is {}', low, high, s)
    return sum(len(r['status']) for r in rows)


def check_limit(case, rows, t0, used, rows_end):
    """ The session ends in the first pass in which the time is up. """
    lim = case.get('limit')
    if not lim:
        return
    for r in rows:
        t = r['t'] - t0 + (used if lim[0] == 'overall' else 0)
        up = t >= lim[1]
        if abs(t - lim[1]) > 0.01 and (up or r['loop'] < rows_end):
            need(r['val'] == up, 'after {} s the condition is {}, limit {}', t, r['val'], lim)


def judge(case, out, run, m, end, rows, t0, used, t):
    for r in rows:
        r['t2'] = run.times[r['i']][1]   # The time of what follows the convergence check
    e2e.base(case, out, run)
    if E.CLOCK.drifted:
        return False
    if any(o[0] == 'raise' for x in case['scripts'] for o in x['ops']) and any('spawning and crashing immediately' in w for w in out.warnings):
        return False   # The subject of other properties
    e2e.no_spurious_crash(case, out, run)
    gone = check_forced(case, run, m, rows)
    check_checkpoints(case, run, rows, t0)
    if check_status(case, run, rows, t0, m):
        t.append('status')
    check_limit(case, rows, t0, used, end)
    left = set(out.left_alive) - {e[1] for e in run.of('terminate')}
    need(not left or (case['backend'] == 'threads' and run.hung), 'optimizers {} were still running when start_manager returned', left)
    if gone:
        t.append('forced')
    if gone & set(m.hunt_victims):
        t.append('forced-victims')
    if {e[1] for e in run.of('terminate')} - gone:
        t.append('terminated-at-end')
    return True


def make_checker(case, loop):
    lim = case.get('limit')
    inner = E.ScriptChecker(None, loop)
    if lim:
        inner = inner | MaxSeconds(**{lim[0] + '_max': lim[1]})
    return E.Monitor(inner)


def run(case):
    E.use_fake_manager()
    records = Records()
    lg = logging.getLogger('glompo')
    lg.addHandler(records)
    E.CLOCK.freeze()
    try:
        with E.fake_processes(), E.scratch() as base:
            return inside({**case, 'verbose': True, 'procs': True}, base, records)
    finally:
        E.CLOCK.release()
        lg.removeHandler(records)


def inside(case, base, records):
    wd = base / 'work'
    wd.mkdir()
    held = []

    def prep(m, run):
        run.user_stopped = set()
        e2e.track_slots(case, run)
        e2e.track_stops(run)
        held.append(Diary(case, run, records))
        run.check_hooks.append(held[0])
    extra = {'checkpoint_control': None, 'status_frequency': case['status'], 'force_terminations_after': case['force'],
             'aggressive_kill': case['aggressive'], 'convergence_checker': make_checker(case, case['loop']), 'end_timeout': case['end_timeout']}
    c = case.get('ckpt')
    if c:
        extra['checkpoint_control'] = ctl = ckpt.control(case, base / 'chk')
        ctl.checkpoint_time_frequency = c.get('secs') or INF
    t0 = E.CLOCK()
    out, run, m = e2e.execute(case, wd, prepare=prep, extra=extra, early=lambda run: c and ckpt.prepare(case, wd, run))
    t = tags(case, out, run) + [case['backend']]
    if not judge(case, out, run, m, case['loop'], held[0].rows, t0, 0, t):
        return {'ok': True, 'nt': False, 'tags': ['drifted']}
    run.user_stopped |= {e[1] for e in run.of('terminate')}   # Results not yet processed are discarded
    e2e.check_accounting(case, out, run)
    e2e.check_told(case, out, run)
    nt = bool({'forced', 'forced-victims', 'status'} & set(t)) or bool(run.ckpts) or bool(case.get('limit'))
    if not (c and run.snaps):
        return {'ok': True, 'nt': nt, 'tags': t}
    snap = ckpt.choose(run.snaps, case['pick'])
    lo, hi = (c - t0 for c in snap['clock'])
    E.CLOCK.freeze()
    E.CLOCK.advance(case['gap'])
    held.clear()
    run2 = E.Run(case, case['sched2'])
    E.RUN = run2
    run2.obs, run2.user_stopped = [], set()
    run2.base = (snap['counters']['f_counter'], snap['counters']['o_counter'])
    m2 = ckpt.load(case, snap, run2, convergence_checker=make_checker(case, case['loop2']), force_terminations_after=case['force'],
                   aggressive_kill=case['aggressive'], backend=case['backend'], end_timeout=case['end_timeout'])
    need(lo - 0.01 <= m2.t_used <= hi + 0.01, 'the session took {} to {} s up to the checkpoint, but t_used is {}', lo, hi, m2.t_used)
    used = m2.t_used
    m2.opt_log.build_traj_plot = True
    e2e.observe(case, m2, run2)
    e2e.track_stops(run2)
    d = Diary(case, run2, records)
    d.n_rec = len(records.seen)
    run2.check_hooks.append(d)
    t02 = E.CLOCK()
    out2 = e2e.finish(m2, run2)
    case = {**case, '_last_f': snap['last_f']}
    if d.rows and not judge(case, out2, run2, m2, case['loop2'], d.rows, t02, used, t):
        return {'ok': True, 'nt': False, 'tags': ['drifted']}
    return {'ok': True, 'nt': True, 'tags': t + ['resumed']}
