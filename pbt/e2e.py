""" Oracles over complete optimization runs (PyPy side). Everything is judged against what the scripted optimizers really
did (Run.evals, Run.events) and what the manager publishes. """
import math

import engine as E
from verdict import need, same

INF = float('inf')


def meta(log, oid, key):
    try:
        return log.get_metadata(oid, key)
    except LookupError:
        return None


def is_min(v, vals):
    """ v is the minimum of vals, where nan never counts. """
    real = [x for x in vals if x == x]
    return (v == min(real)) if real else v == INF


class Obs:
    """ Snapshot of one pass through the manager loop. """

    def __init__(self, run, m, val):
        self.val = val
        self.f = m.f_counter
        self.o = m.o_counter
        self.result = m.result
        self.lens = {o: m.opt_log.len(o) for o in range(1, m.o_counter + 1)}
        self.victims = set(m.hunt_victims)
        self.alive = {o for o, t in run.gate.snapshot().items() if t.is_alive()} - run.ended
        self.n_done = len(run.of('done'))
        self.n_raise = len({e[1] for e in run.of('raise')} - self.victims)


def observe(case, m, run):
    """ Installs the observation of hunts and of the histories at the end of the session. """
    run.hunt_info = []

    def hunt_hook(run, log, hunter, victim, ans):
        run.hunt_info.append(dict(f=m.f_counter, hunter=hunter, victim=victim, ans=ans,
                                  n=log.len(victim), best=m.result,
                                  ended={o for o in range(1, m.o_counter + 1) if meta(log, o, 'end_cond') is not None},
                                  lens={o: log.len(o) for o in range(1, m.o_counter + 1)}))
    run.hunt_hooks.append(hunt_hook)
    log = m.opt_log
    # Histories are looked at before the run discards them
    orig = log.close
    hist = run.hist = {}
    run.log_len = None
    run.was_kept = bool(case.get('keep_log', True))

    def close():
        for o in range(1, m.o_counter + 1):
            hist[o] = {'fx': list(map(float, log.get_history(o, 'fx'))),
                       'x': [list(map(float, x)) for x in log.get_history(o, 'x')],
                       'call_id': [int(c) for c in log.get_history(o, 'call_id')],
                       'len': log.len(o),
                       'meta': {k: meta(log, o, k) for k in ('end_cond', 't_stop', 't_start', 'opt_type', 'opt_id')}}
            if case.get('detailed') and hist[o]['fx']:
                for i in range(case.get('extras', 0)):
                    heads = [h for h in case.get('heads') or () if h != 'fx']
                    for name in ([heads[i]] if heads else [f'result_{i}']):
                        try:
                            hist[o][f'extra{i}'] = [float(v) for v in log.get_history(o, name)]
                        except KeyError:
                            hist[o][f'extra{i}'] = None
        run.log_len = len(log)
        return orig()
    log.close = close


def finish(m, run):
    """ Runs the session to its end. """
    out = E.start(m, run)
    if run.problems:
        raise RuntimeError('harness hook failed: ' + run.problems[0])
    run.teardown()
    E.housekeeping()
    return out


def execute(case, wd, prepare=None, extra=None, early=None):
    """ Runs the case; returns (Outcome, Run, manager) with run.obs filled. """
    run = E.Run(case)
    run.obs = []
    if early:
        early(run)
    m, run = E.new_run(case, wd, extra=extra, run=run)
    run.check_hooks.insert(0, lambda run, m, val: run.obs.append(Obs(run, m, val)))
    observe(case, m, run)
    if prepare:
        prepare(m, run)
    return finish(m, run), run, m


def crash_expected(case):
    return any(v is not None for v in (case.get('faults') or {}).values())


def natural_end(run, out):
    return out.error is None and not run.livelock and \
        bool(out.result) and (out.result.stats or {}).get('end_cond') == 'No optimizers alive, spawning stopped.'


def base(case, out, run):
    """ Facts without which the other oracles make no sense: the call returned a Result. """
    need(not run.livelock, 'the manager loop makes no progress: f={} o={} after {} passes', out.manager.f_counter,
         out.manager.o_counter, run.loops)
    if out.error is not None:
        import traceback
        need(False, 'start_manager raised instead of returning a result: {}',
             ''.join(traceback.format_exception(type(out.error), out.error, out.error.__traceback__))[-1500:])
    need(out.result is not None, 'start_manager returned nothing')


def crashed(out):
    return (out.result.stats or {}).get('end_cond') in ('GloMPO Crash', 'User Interrupt')


def no_spurious_crash(case, out, run):
    if crashed(out):
        if crash_loop(run) and any('spawning and crashing immediately' in x for x in out.warnings):
            return
        w = [x for x in out.warnings if 'Optimization failed' in x]
        need(False, 'the run ended in a crash although no component failed ({} optimizers raised, {} without results): {}', len(run.of('raise')),
             without_results(run, len(run.obs) - 1), (w or ['?'])[-1][-900:])


def without_results(run, k):
    """ Number of optimizers started since the results were those of pass k. """
    f0, o0 = run.base
    if k < 0:
        return o0 if f0 == 0 else 0
    F = run.obs[k].f
    first = 0 if F == 0 else o0 if F == f0 else next(ob.o for ob in run.obs if ob.f == F)
    return run.obs[k].o - first


def crash_loop(run):
    """ Sessions in which optimizers crash one after the other without evaluating anything are stopped by design. """
    return without_results(run, len(run.obs) - 1) > 5 and bool(run.of('raise'))


def accepted(run):
    """ [(call_id, opt_id, x, fx)] in the order of acceptance. """
    rows = []
    for o, h in run.hist.items():
        for c, x, f in zip(h['call_id'], h['x'], h['fx']):
            rows.append((c, o, x, f))
    return sorted(rows, key=lambda r: r[0])


# ------------------------------------------------------------------------------------------------- P01 incumbent

def check_incumbent(case, out, run):
    m, r = out.manager, out.result
    if run.was_kept:
        rows = accepted(run)
        # At every pass of the loop and at the end the result is the minimum of what has been accepted
        for ob in run.obs:
            upto = [q for q in rows if q[0] <= ob.f]
            check_best(ob.result, upto, run, ob.f)
        check_best(r, rows, run, m.f_counter, final=True)
    else:
        for ob in run.obs + [None]:
            res = ob.result if ob else r
            if res.fx is None or res.fx == INF or not res.x:
                continue
            o = res.origin['opt_id']
            need((list(res.x), res.fx) in run.evals.get(o, []),
                 'the incumbent (x={}, fx={}) was never evaluated by optimizer {}', res.x, res.fx, o)
        if natural_end(run, out) and not run.hunts:
            vals = [e[1] for ev in run.evals.values() for e in ev]
            need(is_min(r.fx if r.fx is not None else INF, vals),
                 'the returned fx={} is not the lowest evaluated value ({})', r.fx, min([v for v in vals if v == v],
                                                                                       default=INF))
    seq = [ob.result.fx for ob in run.obs if ob.result.fx is not None]
    need(all(not (b > a) for a, b in zip(seq, seq[1:])), 'the incumbent got worse during the run: {}', seq)
    need(r.fx is None or not seq or not (r.fx > seq[-1]), 'the returned fx={} is worse than an earlier incumbent {}',
         r.fx, seq[-1:] or None)


def check_best(res, rows, run, f, final=False):
    vals = [q[3] for q in rows]
    real = [v for v in vals if v == v and v != INF]
    if not real:
        need(res.fx in (None, INF), 'no usable value among {} evaluations but fx={}', len(rows), res.fx)
        need(not res.x, 'no usable value yet but x={}', res.x)
        return
    need(res.fx == min(real), 'after {} evaluations the incumbent is fx={} but the lowest accepted value is {}', f,
         res.fx, min(real))
    o = res.origin['opt_id']
    need(any(q[1] == o and q[3] == res.fx and q[2] == [float(i) for i in res.x] for q in rows),
         'the incumbent x={} fx={} was never evaluated by its origin, optimizer {}', list(res.x), res.fx, o)
    need((list(map(float, res.x)), res.fx) in run.evals.get(o, []),
         'the incumbent x={} fx={} does not match what optimizer {} evaluated', list(res.x), res.fx, o)
    need(res.origin['type'] == run.types.get(o), 'origin type {} but optimizer {} is a {}', res.origin['type'], o,
         run.types.get(o))


# ------------------------------------------------------------------------------------------------- P02 accounting

def check_accounting(case, out, run):
    m, r = out.manager, out.result
    total_ev = sum(len(e) for e in run.evals.values())
    for o, ret in run.returned.items():
        want = [e[1] for e in run.evals[o]]
        need(all(same(a, b) for a, b in zip(ret, want)),
             'optimizer {} was handed {} for evaluations worth {}', o, ret[:8], want[:8])
    need(m.f_counter <= total_ev, 'f_counter={} but only {} evaluations were made', m.f_counter, total_ev)
    fs = [ob.f for ob in run.obs]
    need(all(b >= a for a, b in zip(fs, fs[1:])) and (not fs or m.f_counter >= fs[-1]), 'f_counter went back: {}', fs)
    if r.stats and 'f_evals' in r.stats:
        need(r.stats['f_evals'] == m.f_counter, "stats report {} evaluations, f_counter is {}", r.stats['f_evals'],
             m.f_counter)
    need(run.log_len == m.f_counter, 'the log holds {} evaluations, f_counter is {}', run.log_len, m.f_counter)
    killed = {h['victim']: h['n'] for h in run.hunt_info if h['ans']}
    if run.was_kept:
        ids = []
        for o, h in run.hist.items():
            truth = run.evals.get(o, [])
            n = len(h['fx'])
            need(h['len'] == n == len(h['x']) == len(h['call_id']), 'columns of optimizer {} differ in length: {} {} {} {}',
                 o, h['len'], n, len(h['x']), len(h['call_id']))
            need(n <= len(truth), 'optimizer {} made {} evaluations but {} are recorded', o, len(truth), n)
            for i in range(n):
                need(same(float(h['fx'][i]), truth[i][1]) and h['x'][i] == truth[i][0],
                     'record {} of optimizer {} is ({}, {}) but its evaluation was {}', i, o, h['x'][i], h['fx'][i],
                     truth[i])
            need(all(b > a for a, b in zip(h['call_id'], h['call_id'][1:])),
                 'call ids of optimizer {} are not increasing: {}', o, h['call_id'])
            ids += h['call_id']
            if case.get('detailed'):
                for i in range(case.get('extras', 0)):
                    col = h.get(f'extra{i}')
                    if n:
                        need(col is not None and len(col) == n and
                             all(same(c, truth[j][1] * (i + 2) + 0.5) for j, c in enumerate(col)),
                             'detailed column {} of optimizer {} is {}', i, o, col)
        need(sorted(ids) == list(range(1, m.f_counter + 1)),
             'call ids are not 1..{} each used once: {}', m.f_counter, sorted(ids)[:40])
        for ob in run.obs:
            need(sum(ob.lens.values()) == ob.f, 'histories hold {} evaluations while f_counter={}', ob.lens, ob.f)
        for o, n in killed.items():
            need(run.hist[o]['len'] == n, 'optimizer {} had {} evaluations when it was killed but {} are recorded', o, n,
                 run.hist[o]['len'])
    if natural_end(run, out):
        stopped = {e[1] for e in run.of('stop')}
        full = sum(len(ev) for o, ev in run.evals.items() if o not in killed and o not in run.user_stopped)
        if run.was_kept:
            for o, ev in run.evals.items():
                if o not in killed and o not in run.user_stopped:
                    need(run.hist[o]['len'] == len(ev), 'optimizer {} finished after {} evaluations, {} are recorded',
                         o, len(ev), run.hist[o]['len'])
        need(m.f_counter >= full, '{} evaluations were made by optimizers which were never killed, f_counter={}', full,
             m.f_counter)
        del stopped


# ------------------------------------------------------------------------------------------------- P03 slots and ids

def check_slots(case, out, run):
    m = out.manager
    need(run.max_used <= case['max_jobs'], 'optimizers using {} slots were running at once, {} allowed', run.max_used,
         case['max_jobs'])
    ids = [e[1] for e in run.of('start')]
    need(sorted(ids) == list(range(1, len(ids) + 1)), 'optimizer ids are {}', ids)
    crash = crashed(out)
    need(m.o_counter == len(ids) or (crash and m.o_counter >= len(ids)),
         'o_counter={} but {} optimizers were started', m.o_counter, len(ids))
    sel = run.of('select')
    need(crash or len(ids) == len([e for e in sel if e[2]]), '{} optimizers were selected, {} were started',
         len([e for e in sel if e[2]]), len(ids))
    need(not run.slot_faults, '{}', run.slot_faults[:1])
    for k, e in enumerate(sel):
        if e[2] is False:
            need(k == len(sel) - 1, 'the selector was asked again after it had stopped spawning')
    # Configuration of every start
    opt_x0 = [e[1] for e in run.of('x0')]
    for k, e in enumerate(sorted(run.of('start'), key=lambda q: q[1])):
        _, oid, script, kw, init, x0, bounds = e
        s = case['scripts'][script]
        need(script == k % len(case['scripts']) or case['max_jobs'] < max(q.get('workers', 1) for q in case['scripts']),
             'optimizer {} runs configuration {}, the selector chose {}', oid, script, k % len(case['scripts']))
        need(kw == {'call_echo': script, 'cls': 'Alt' if s.get('alt') else 'Scripted'},
             'optimizer {} was called with {}', oid, kw)
        need(init['workers'] == s.get('workers', 1) and init['echo'] == f'echo{script}' and
             init['detailed'] == bool(case.get('detailed')) and init['backend'] == 'threads',
             'optimizer {} was configured with {}', oid, init)
        need(x0 == opt_x0[oid - 1], 'optimizer {} started at {} but {} was generated for it', oid, x0, opt_x0[oid - 1])
        need(bounds == [[0.0, 1.0 + i] for i in range(len(x0))], 'optimizer {} was given bounds {}', oid, bounds)
        h = run.hist.get(oid)
        if run.was_kept and h:
            need(h['meta']['opt_id'] == oid and h['meta']['opt_type'] == run.types[oid],
                 'optimizer {} is described in the log as {}', oid, h['meta'])


def track_slots(case, run, jobs=None, resumed=None, first=1, stopped=False):
    """ Installs the measurement of slots in use. Must run before the optimizers start. """
    jobs = case['max_jobs'] if jobs is None else jobs
    run.max_used = 0
    run.types = {}
    run.slot_faults = []
    note = run.note
    given = dict(resumed or {})     # Workers of every optimizer handed out by the selector, by id
    fresh = [first]
    run.workers = dict(given)
    state = {'free': jobs - sum(given.values()), 'asked': [], 'stopped': stopped}

    def free_now():
        th = run.gate.snapshot()
        return jobs - sum(w for o, w in given.items() if o not in th or th[o].is_alive())

    def select(run, slots, workers):
        # Optimizers may end at any time but nothing else frees slots
        low = state['free'] - sum(w or 0 for _, w in state['asked'])
        if not low <= slots <= free_now() or slots <= 0:
            run.slot_faults.append(f'{slots} slots were offered to the selector, {low} to {free_now()} were free')
        if workers and workers > slots:
            run.slot_faults.append(f'{workers} workers for {slots} slots')
        if state['stopped']:
            run.slot_faults.append('spawning went on after the selector had stopped it')
        if workers is False:
            state['stopped'] = True
        state['asked'].append((slots, workers))
        if workers:
            given[fresh[0]] = workers
            fresh[0] += 1

    def passed(run, m, val):
        ask = state['asked']
        if not state['stopped'] and state['free'] > 0:
            if not ask:
                run.slot_faults.append(f"{state['free']} slots were free but nothing was started or asked for")
            elif ask[-1][1] and ask[-1][0] - ask[-1][1] > 0:
                run.slot_faults.append(f'{ask[-1][0] - ask[-1][1]} slots were left empty although the selector had more')
        state['asked'] = []
        state['free'] = free_now()
    run.select_hooks.append(select)
    run.check_hooks.append(passed)

    def noting(kind, *args):
        note(kind, *args)
        if kind in ('start', 'restart'):
            oid = args[0]
            with run.lock:
                if kind == 'start':
                    run.workers[oid] = case['scripts'][args[1]].get('workers', 1)
                    run.types[oid] = 'Alt' if case['scripts'][args[1]].get('alt') else 'Scripted'
                else:
                    run.workers[oid] = args[5]
                used = sum(run.workers[o] for o, t in run.gate.snapshot().items() if t.is_alive() and o in run.workers)
                run.max_used = max(run.max_used, used)
    run.note = noting


# ------------------------------------------------------------------------------------------------- P04 termination

def check_termination(case, out, run):
    m, r = out.manager, out.result
    cond = (r.stats or {}).get('end_cond')
    vals = [v for _, v in run.checks]
    need(not any(vals[:-1]), 'the run went on after its convergence condition was met (pass {} of {})',
         vals.index(True) + 1 if True in vals else None, len(vals))
    all_dead = all(not t.is_alive() for o, t in run.gate.snapshot().items() if o not in run.hung)
    need(all_dead, 'optimizers {} were still running after the run had ended',
         [o for o, t in run.gate.snapshot().items() if t.is_alive()])
    check_told(case, out, run)
    if crash_expected(case):
        return
    if crashed(out):
        return
    need(m.converged, 'the run ended but is not marked converged')
    need(out.wall < 25, 'the session took {} s although waiting for each optimizer is limited to {} s', out.wall,
         case.get('end_timeout'))
    if vals and vals[-1]:
        need(cond == m.convergence_checker.str_with_result(), 'the condition was met but the reported reason is {}', cond)
    else:
        need(cond == 'No optimizers alive, spawning stopped.', 'the run ended early with reason {}', cond)
        # It may only end this way if nothing can be started any more
        done = [e[1] for e in run.of('exit')] + [e[1] for e in run.of('raise')] + [e[1] for e in run.of('silent')]
        need(m.o_counter >= case['max_opts'], 'the run ended with "{}" though only {} of {} optimizers were started',
             cond, m.o_counter, case['max_opts'])
        need(set(range(1, m.o_counter + 1)) <= set(done) | run.hung,
             'the run ended with "{}" while optimizers {} had not ended', cond,
             sorted(set(range(1, m.o_counter + 1)) - set(done)))
    f_stop = (case.get('stop') or {}).get('f')
    if f_stop is not None and m.f_counter < f_stop and not (vals and vals[-1]):
        need(natural_end(run, out), 'the run ended before its condition was met: {}', cond)


def check_told(case, out, run):
    """ No optimizer outlives the run: each ended by itself or was told to stop, and is waited for. """
    begun = {e[1] for e in run.of('start') + run.of('restart')}
    ended = {e[1] for k in ('stop', 'done', 'raise', 'silent', 'terminate') for e in run.of(k)} | run.hung
    need(begun <= ended, 'optimizers {} were running at the end of the run and not told to stop', sorted(begun - ended))
    # The wait is bounded by a wall clock limit if something hangs or the manager crashed
    if not run.hung and not crashed(out):
        need(not set(out.left_alive) - {e[1] for e in run.of('terminate')}, 'optimizers {} were still running when start_manager returned', out.left_alive)


# ------------------------------------------------------------------------------------------------- P05 / P06 hunting

def hunt_points(case, rows):
    """ Evaluation numbers at which a hunt has to take place. """
    best, last, pts = INF, 0, []
    for c, o, x, fx in rows:
        if fx < best:
            best = fx
        if best < INF and c - last >= case.get('hunt_freq', 1):
            pts.append(c)
            last = c
    return pts


def check_hunts(case, out, run):
    m = out.manager
    if case.get('hunter') is None:
        need(not m.hunt_victims and m.hunt_counter == 0, 'optimizers were hunted without a condition to do so')
        return
    rows = accepted(run)
    pts = hunt_points(case, rows)
    got = sorted({h['f'] for h in run.hunt_info})
    need(set(got) <= set(pts), 'hunts took place at evaluations {} but are due at {} (every {})', got, pts,
         case.get('hunt_freq', 1))
    if not crashed(out):
        need(m.hunt_counter == len(pts), '{} hunts were held, {} were due', m.hunt_counter, len(pts))
    killed = set()
    for f in got:
        group = [h for h in run.hunt_info if h['f'] == f]
        asked = [h['victim'] for h in group]
        upto = [q for q in rows if q[0] <= f]
        best = min([q[3] for q in upto if q[3] == q[3]])
        for h in group:
            need(any(q[1] == h['hunter'] and q[3] == best for q in upto),
                 'at evaluation {} optimizer {} hunts but does not hold the best value {}', f, h['hunter'], best)
            need(h['victim'] != h['hunter'], 'optimizer {} was asked to hunt itself', h['victim'])
            need(h['victim'] not in killed, 'optimizer {} was hunted after it had been killed', h['victim'])
            need(h['n'] >= 1, 'optimizer {} was hunted before it delivered a value', h['victim'])
        need(len(set(h['hunter'] for h in group)) == 1, 'more than one hunter at evaluation {}', f)
        need(len(set(asked)) == len(asked), 'victims were considered twice at evaluation {}: {}', f, asked)
        first = group[0]
        ended = first['ended']
        want = {o for o, n in first['lens'].items() if n and o not in ended and o != first['hunter']} - killed
        need(set(asked) == want, 'at evaluation {} optimizers {} were considered for termination, {} were due', f,
             sorted(asked), sorted(want))
        killed |= {h['victim'] for h in group if h['ans']}


def check_kills(case, out, run):
    m = out.manager
    check_counts(case, out, run)
    yes = {}
    for h in run.hunt_info:
        if h['ans']:
            need(h['victim'] not in yes, 'optimizer {} was killed twice', h['victim'])
            yes[h['victim']] = h
    need(set(m.hunt_victims) == set(yes) | run.user_stopped, 'killed: {}, but the condition was met for {}',
         sorted(m.hunt_victims), sorted(set(yes) | run.user_stopped))
    stops = {}
    for e in run.of('stop'):
        stops.setdefault(e[1], []).append(e[2])
    finished = {e[1] for e in run.of('done') + run.of('raise') + run.of('silent')}
    for o, h in yes.items():
        need(o in stops or o in finished or o in run.hung, 'optimizer {} was killed but never told to stop', o)
        c = str(run.hist[o]['meta']['end_cond'])
        if run.was_kept:
            need('GloMPO Termination' in c and f"Hunter: {h['hunter']}\n" in c and 'ScriptHunter(' in c and '= True' in c,
                 'the log does not say that optimizer {} was killed by {}: {}', o, h['hunter'], c)
            need(run.hist[o]['meta']['t_stop'] is not None, 'no end time for killed optimizer {}', o)
            need(run.hist[o]['len'] == h['n'], 'results of optimizer {} were accepted after it was killed ({} -> {})',
                 o, h['n'], run.hist[o]['len'])
    # Nobody else was told to stop before the end of the run
    if run.obs and not crashed(out):
        early = run.early_stops
        need(early <= set(yes) | run.user_stopped, 'optimizers {} were told to stop but had not been selected',
             sorted(early - set(yes) - run.user_stopped))
    r = out.result
    if r.stats and 'opts_killed' in r.stats:
        need(r.stats['opts_killed'] == len(m.hunt_victims), 'stats report {} kills, there were {}',
             r.stats['opts_killed'], len(m.hunt_victims))
        need(r.stats['opts_started'] == m.o_counter, 'stats report {} optimizers, there were {}',
             r.stats['opts_started'], m.o_counter)
        need(r.stats['opts_conv'] == m.conv_counter, 'stats report {} converged optimizers, there were {}',
             r.stats['opts_conv'], m.conv_counter)


def track_stops(run):
    """ Remembers who had been told to stop while the loop was still running. """
    run.early_stops = set()

    def hook(run, m, val):
        if not val and not m.converged:
            run.early_stops = {e[1] for e in run.of('stop')}
    run.check_hooks.append(hook)


# ------------------------------------------------------------------------------------------------- P07 sharing

def check_sharing(case, out, run):
    got = {}
    for e in run.of('inject'):
        got.setdefault(e[1], []).append((e[2], e[3]))
    if not case.get('share'):
        need(not got, 'incumbents were sent to optimizers {} although sharing is off', sorted(got))
        return
    rows = accepted(run)
    best, imps = INF, []
    for c, o, x, fx in rows:
        if fx < best:
            best = fx
            imps.append((c, o, x, fx))
    for o, inj in got.items():
        idx = []
        for x, fx in inj:
            m_ = [k for k, i in enumerate(imps) if i[2] == [float(v) for v in x] and i[3] == fx]
            need(m_, 'optimizer {} was sent x={} fx={}, which was not a new best of the run', o, x, fx)
            need(imps[m_[0]][1] != o, 'optimizer {} was sent its own solution', o)
            idx.append(m_[0])
        need(all(b > a for a, b in zip(idx, idx[1:])), 'optimizer {} was sent incumbents out of order or repeatedly: {}',
             o, [i[1] for i in inj])
    # Completeness for the optimizers known to be running when the improvement was recorded
    obs = run.obs
    for o in range(1, out.manager.o_counter + 1):
        if o in run.hung:
            continue
        have = {k for k, i in enumerate(imps) for x, fx in got.get(o, []) if i[2] == x and i[3] == fx}
        for k, (c, src, x, fx) in enumerate(imps):
            if src == o:
                continue
            before = [ob for ob in obs if ob.f < c]
            after = [ob for ob in obs if ob.f >= c]
            if before and after and o in before[-1].alive and o in after[0].alive:
                need(k in have, 'optimizer {} was running but never told about the new best {} (evaluation {})', o, fx, c)


# ------------------------------------------------------------------------------------------------- P19 faults

def check_faults(case, out, run):
    m, r = out.manager, out.result
    f = case.get('faults') or {}
    check_told(case, out, run)
    check_counts(case, out, run)
    if not crash_expected(case):
        no_spurious_crash(case, out, run)
    for k in range(1, len(run.obs) - 1):
        need(not (run.obs[k - 1].n_raise and min(without_results(run, k - 1), without_results(run, k)) > 5 + case['max_jobs']),
             'optimizers crash, {} were started without any result since but the session goes on', without_results(run, k))
    if not crashed(out):
        killed = {h['victim'] for h in run.hunt_info if h['ans']}
        need(run.early_stops <= killed | run.user_stopped,
             'optimizers {} were told to stop although they were not selected', sorted(run.early_stops - killed))
        need(not run.of('fault'), 'a component failed ({}) but the session went on to "{}"', f,
             (r.stats or {}).get('end_cond'))
    if crashed(out):
        want = 'User Interrupt' if f.get('interrupt') is not None else 'GloMPO Crash'
        need((r.stats or {}).get('end_cond') == want, 'end condition {} instead of {}', r.stats, want)
        need(any('Optimization failed' in w for w in out.warnings), 'the failure was not reported')
    if run.was_kept:
        check_best(r, accepted(run), run, m.f_counter)
        raised = {e[1] for e in run.of('raise')}
        begun = {e[1] for e in run.of('start')}
        for o, h in run.hist.items():
            if o not in begun:
                continue  # The failure prevented its start
            need(h['meta']['end_cond'] is not None and h['meta']['t_stop'] is not None,
                 'optimizer {} has no end condition in the log', o)
            c = str(h['meta']['end_cond'])
            done = {e[1] for e in run.of('done')}
            silent = {e[1] for e in run.of('silent')}
            if o in raised:
                need('Error termination' in c or 'GloMPO' in c or (crashed(out) and 'Interrupt' in c), 'optimizer {} failed but is recorded as "{}"', o, c)
                need('Optimizer convergence' not in c, 'failed optimizer {} recorded as converged', o)
            elif o in done:
                need('Error' not in c, 'optimizer {} converged but is recorded as "{}"', o, c)
            elif o in silent:
                need('Normal termination' in c or 'GloMPO' in c or (crashed(out) and 'Interrupt' in c), 'optimizer {} ended by itself but is recorded as "{}"',
                     o, c)
            if natural_end(run, out) and o in done and o not in m.hunt_victims:
                need('Optimizer convergence' in c or 'GloMPO Convergence' in c, 'optimizer {} recorded as "{}"', o, c)


def check_counts(case, out, run):
    """ conv_counter counts the optimizers which ended on their own. """
    m = out.manager
    done = {e[1] for e in run.of('done') + run.of('silent')} - set(m.hunt_victims)
    need(m.conv_counter <= len(done), '{} optimizers counted as converged, {} ended on their own', m.conv_counter,
         sorted(done))
    if natural_end(run, out):
        need(m.conv_counter == len(done), '{} optimizers counted as converged, these ended on their own: {}', m.conv_counter,
             sorted(done))
