import ckpt
import e2e
import engine as E
from glompo.common.helpers import CheckpointingError
from verdict import need
from ._e2e import tags as run_tags


def resumed(case, snap, r1, out, run, m, jobs):
    """ Judges the optimization as a whole after the second session. """
    restarted = {e[1]: e for e in run.own_events if e[0] == 'restart'}
    slots = ckpt.restart_slots(snap, jobs)
    need(run.max_used <= jobs, 'optimizers using {} slots were running at once after the resume, {} allowed', run.max_used, jobs)
    need(not run.slot_faults, 'after the resume: {}', run.slot_faults[:1])
    need(set(restarted) == set(snap['saved']), 'optimizers {} were saved, {} were resumed', sorted(snap['saved']),
         sorted(restarted))
    types = {**{e[1]: e[3]['cls'] for e in r1.of('start')}}
    for o, e in restarted.items():
        need(e[4] is None, 'optimizer {} was saved in a stopped state ({})', o, e[4])
        need(e[3] == snap['saved'][o], 'optimizer {} had made {} evaluations when it was saved and resumes after {}', o,
             snap['saved'][o], e[3])
        need(e[5] == types[o], 'optimizer {} is a {} but was resumed as a {}', o, types[o], e[5])
        need(e[6] == slots[o], 'optimizer {} had {} workers and was resumed with {} instead of {}', o, snap['slots'][o], e[6], slots[o])
    for o in restarted:
        ev = run.own_evals.get(o, [])
        n = snap['saved'][o]
        need([e[0][2] for e in ev] == [float(n + 1 + i) for i in range(len(ev))],
             'optimizer {} resumed after {} evaluations but then made numbers {}', o, n, [e[0][2] for e in ev][:5])
    new = sorted(e[1] for e in run.own_events if e[0] == 'start')
    first = snap['counters']['o_counter'] + 1
    need(new == list(range(first, first + len(new))), 'optimizers started after the resume have ids {} instead of {}...',
         new, first)
    # What the checkpoint held is still there, unchanged
    for o, d in snap['log']['opts'].items():
        h = run.hist.get(o)
        need(h is not None, 'optimizer {} is missing after the resume', o)
        n = d['len']
        need(h['call_id'][:n] == d['call_id'] and ckpt.eq(h['fx'][:n], d['fx']) and h['x'][:n] == d['x'],
             'the history of optimizer {} before the checkpoint changed', o)
        if o not in restarted:
            need(len(h['fx']) == n, 'optimizer {} was not resumed but has {} new evaluations', o, len(h['fx']) - n)
    need(m.f_counter >= snap['counters']['f_counter'], 'f_counter went from {} to {}', snap['counters']['f_counter'],
         m.f_counter)


def run(case):
    with E.scratch() as base:
        out, r, m, wd, cdir = ckpt.first(case, base)
        e2e.base(case, out, r)
        e2e.no_spurious_crash(case, out, r)
        e2e.check_accounting(case, out, r)   # A checkpoint does not disturb the session which makes it
        e2e.check_told(case, out, r)
        t = run_tags(case, out, r)
        for s in r.snaps:
            ckpt.check_saved(case, s)
        t.append('checkpoints' if r.snaps else 'no-checkpoint')
        if not r.snaps:
            return {'ok': True, 'nt': False, 'tags': t}
        snap = ckpt.choose(r.snaps, case['pick'])
        stop2 = case.get('stop2') or {}
        chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
        jobs = case.get('jobs2') or case['max_jobs']
        over = {'max_jobs': jobs} if case.get('jobs2') else {}
        need(ckpt.restart_slots(snap, case['max_jobs']) is not None and sum(snap['slots'][o] for o in snap['saved']) <= case['max_jobs'],
             'more optimizers were saved than there are slots: {}', snap['saved'])
        if ckpt.restart_slots(snap, jobs) is None:
            try:
                ckpt.load(case, snap, E.Run(case), convergence_checker=chk, **over)
            except CheckpointingError:
                t.append('too-few-slots')
                return {'ok': True, 'nt': False, 'tags': t}
            need(False, '{} optimizers were to be resumed with {} jobs', len(snap['saved']), jobs)
        out2, run2, m2 = ckpt.second(case, snap, r, base, convergence_checker=chk, **over)
        fewer = ckpt.restart_slots(snap, jobs) != {o: snap['slots'][o] for o in snap['saved']}
        need(fewer == any('maximum number of jobs' in w for w in run2.load_warnings), 'slots were {}changed but the warnings are {}',
             '' if fewer else 'not ', run2.load_warnings)
        if fewer:
            t.append('fewer-slots')
        e2e.base(case, out2, run2)
        e2e.no_spurious_crash(case, out2, run2)
        ckpt.merge(snap, r, run2)
        if not ckpt.check_begun(snap, stop2, run2, out2):
            t.append('no-second-session')
            return {'ok': True, 'nt': False, 'tags': t}
        resumed(case, snap, r, out2, run2, m2, jobs)
        e2e.check_accounting(case, out2, run2)
        e2e.check_incumbent(case, out2, run2)
        e2e.check_told(case, out2, run2)
        t.append('restored' if snap['saved'] else 'nothing-restored')
        return {'ok': True, 'nt': any(e[0] == 'restart' for e in run2.own_events) and bool(run2.own_evals), 'tags': t}
