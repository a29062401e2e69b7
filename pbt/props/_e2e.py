""" Shared run() of the properties judged on complete runs. """
import ckpt
import e2e
import engine as E


def tags(case, out, run):
    t = []
    m = out.manager
    if run.hunt_info:
        t.append('hunted')
    if m.hunt_victims:
        t.append('killed')
    if m.o_counter > 1:
        t.append('several-opts')
    if run.of('raise'):
        t.append('opt-crash')
    if run.of('inject'):
        t.append('injected')
    if e2e.natural_end(run, out):
        t.append('natural-end')
    elif e2e.crashed(out):
        t.append('manager-crash')
    else:
        t.append('condition-end')
    if m.optimizer_queue.fast_func if hasattr(m.optimizer_queue, 'fast_func') else False:
        t.append('chunked-queue')
    if not run.was_kept:
        t.append('cleared-logs')
    if m.f_counter > 10:
        t.append('f>10')
    return t


def go(case, oracle, nontrivial):
    if case.get('resume'):
        return resumed(case, oracle, nontrivial)
    with E.scratch() as wd:
        def prep(m, run):
            run.user_stopped = set()
            e2e.track_slots(case, run)
            e2e.track_stops(run)
        out, run, m = e2e.execute(case, wd, prepare=prep)
        e2e.base(case, out, run)
        if not e2e.crash_expected(case):
            e2e.no_spurious_crash(case, out, run)
        oracle(case, out, run)
        return {'ok': True, 'nt': bool(nontrivial(case, out, run)), 'tags': tags(case, out, run)}


def resumed(case, oracle, nontrivial):
    """ The same, judged on an optimization which was continued from a checkpoint of another session. """
    with E.scratch() as base:
        out, r, m, wd, cdir = ckpt.first(case, base)
        e2e.base(case, out, r)
        if not r.snaps:
            return {'ok': True, 'nt': False, 'tags': ['no-checkpoint']}
        snap = ckpt.choose(r.snaps, case['pick'])
        stop2 = case.get('stop2') or {}
        case2 = {**case, 'stop': stop2, 'faults': None}
        chk = E.Monitor(E.ScriptChecker(stop2.get('f'), stop2.get('loop')))
        out2, run2, m2 = ckpt.second(case2, snap, r, base, convergence_checker=chk)
        e2e.base(case2, out2, run2)
        ckpt.merge(snap, r, run2)
        if not ckpt.check_begun(snap, stop2, run2, out2):
            return {'ok': True, 'nt': False, 'tags': ['no-second-session']}
        e2e.no_spurious_crash(case2, out2, run2)
        oracle(case2, out2, run2)
        return {'ok': True, 'nt': bool(run2.own_evals) and bool(nontrivial(case2, out2, run2)),
                'tags': ['resumed'] + tags(case2, out2, run2)}
