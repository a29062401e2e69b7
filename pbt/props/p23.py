""" What optimizers print. """
import io
import multiprocessing as mp
import re
import sys
import threading
import time
import warnings

import ckpt
import e2e
import engine as E
from verdict import need
from ._e2e import tags
from glompo.common.wrappers import process_print_redirect
from glompo.core._backends import CustomThread, ThreadPrintRedirect

DIR = 'glompo_optimizer_printstreams'
TRACE = re.compile(r'Traceback \(most recent call last\):\n(?:.*\n)*?(?:\w+\.)*OptError: scripted failure \d+\n')
PLAIN = ('print', 'flush', 'several', 'write')


def content(d, k, ext):
    p = d / DIR / f'printstream_{k:04}.{ext}'
    need(p.is_file(), 'there is no file {}', p.name)
    return p.read_bytes().decode()


def mind(run, m, val):
    """ The main thread prints too. """
    for s in ('out', 'err'):
        run.printed.setdefault((0, s), []).append(E.say(s, 'print', f'main {run.loops} {s}'))


def check_streams(case, wd, out, run, ids, what):
    main = run.printed
    own = lambda o, s: ''.join(main.get((o, s), ()))
    need(out.streams[0] is out.console[0] and out.streams[1] is out.console[1],
         '{}: afterwards sys.stdout and sys.stderr are {} instead of what they were', what, out.streams)
    cons = [c.getvalue() for c in out.console]
    if case['split']:
        have = {p.name for p in (wd / DIR).iterdir()}
        want = {f'printstream_{o:04}.{e}' for o in ids for e in ('out', 'err')}
        need(want <= have, '{}: files {} are missing', what, sorted(want - have))
        if what == 'session':
            need(want == have, '{}: files {} belong to no optimizer', what, sorted(have - want))
        for o in ids:
            got = content(wd, o, 'out')
            need(got == own(o, 'out'), '{}: optimizer {} printed {!r}, its file holds {!r}', what, o, own(o, 'out'), got)
            got = content(wd, o, 'err')
            trace = bool([e for e in run.of('raise') if e[1] == o])
            rest = TRACE.sub('', got, 1)
            need(trace == (rest != got), '{}: the .err file of optimizer {} has {}traceback: {!r}', what, o, 'no ' if trace else 'a ', got)
            need(rest == own(o, 'err'), '{}: optimizer {} printed {!r} as errors, its file holds {!r}', what, o, own(o, 'err'), rest)
        need(cons[0] == own(0, 'out'), '{}: the console got {!r} although only {!r} was printed outside of optimizers', what, cons[0], own(0, 'out'))
        need(TRACE.sub('', cons[1]) == own(0, 'err'), '{}: the console got the errors {!r} instead of {!r}', what, cons[1], own(0, 'err'))
    else:
        need(not (wd / DIR).exists(), '{}: there is a directory for the print streams', what)
        for k, s in enumerate(('out', 'err')):
            text = cons[k]
            for o in [0, *ids]:
                for t in sorted(main.get((o, s), ()), key=len, reverse=True):
                    need(t in text, '{}: {!r} printed by optimizer {} did not reach the console', what, t, o)
            left = TRACE.sub('', text) if k else text
            need(len(left) == sum(len(t) for (o, q), ts in main.items() if q == s for t in ts), '{}: the console got {!r}, printed: {}', what, text, main)


def session(case):
    with E.scratch() as base:
        wd = base / 'work'
        wd.mkdir()

        def prep(m, run):
            run.user_stopped = set()
            e2e.track_slots(case, run)
            e2e.track_stops(run)
            run.check_hooks.append(mind)
        extra = {'checkpoint_control': ckpt.control(case, base / 'chk') if case.get('ckpt') else None}
        out, run, m = e2e.execute(case, wd, prepare=prep, extra=extra, early=lambda run: case.get('ckpt') and ckpt.prepare(case, wd, run))
        e2e.base(case, out, run)
        e2e.no_spurious_crash(case, out, run)
        ids = sorted(e[1] for e in run.of('start'))
        check_streams(case, wd, out, run, ids, 'session')
        t = tags(case, out, run) + ['split' if case['split'] else 'not-split']
        nt = len({o for o, s in run.printed if o}) > 1
        if not case.get('ckpt') or not run.snaps:
            return {'ok': True, 'nt': nt, 'tags': t}
        before = {p.name: p.read_bytes() for p in (wd / DIR).iterdir()} if case['split'] else {}
        snap = ckpt.choose(run.snaps, case['pick'])
        stop2 = {'loop': case['loop2']}
        chk = E.Monitor(E.ScriptChecker(None, case['loop2']))
        out2, run2, m2 = ckpt.second({**case, 'stop': stop2}, snap, run, base, convergence_checker=chk)
        e2e.base(case, out2, run2)
        mine = {e[1] for e in run2.events if e[0] in ('start', 'restart')}
        check_streams(case, wd, out2, run2, sorted(mine), 'second session')
        for n, data in before.items():
            if int(n[12:16]) not in mine:
                need((wd / DIR / n).read_bytes() == data, 'the second session changed {} of an optimizer it did not run', n)
        return {'ok': True, 'nt': nt or len(mine) > 1, 'tags': t + ['resumed']}


class Ping:
    """ Lets threads act one at a time. """

    def __init__(self):
        self.cond = threading.Condition()
        self.turn = None

    def wait(self, me):
        with self.cond:
            while self.turn != me:
                self.cond.wait(5)
            self.turn = None
            self.cond.notify_all()

    def done(self):
        with self.cond:
            self.turn = 'main'
            self.cond.notify_all()

    def give(self, who, th):
        with self.cond:
            self.turn = who
            self.cond.notify_all()
            while self.turn != 'main' and th.is_alive():
                self.cond.wait(0.2)
            self.turn = 'main'


def body(me, ping, texts, end, said):
    for k, t in enumerate(texts):
        ping.wait(me)
        said.append((t[0], E.say(*t)))
        if k < len(texts) - 1:
            ping.done()
    if end == 'raise':
        raise E.OptError(f'scripted failure {me}')


def threads(case):
    """ The redirection by itself, with several generations of threads. """
    with E.scratch() as d, E.quiet() as seen:
        (d / DIR).mkdir()
        cons = E.CONSOLE
        for _ in range(case['layers']):
            sys.stdout, sys.stderr = ThreadPrintRedirect(sys.stdout), ThreadPrintRedirect(sys.stderr)
        ping, live, expect, console, made = Ping(), {}, {}, {'out': [], 'err': []}, {}
        for who, how in case['order']:
            if who == 0:
                console[how[0]].append(E.say(*how))
                continue
            if who not in made:
                spec = case['threads'][who]
                said = []
                name = f'Opt{who}' if case['named'] else f'Opt{who:03}'
                th = CustomThread(working_directory=d, redirect_print=spec['redirect'], name=name, daemon=True, target=body,
                                  args=(who, ping, spec['texts'], spec['end'], said))
                th.start()
                made[who] = [th, spec, said, 0]
            th, spec, said, n = made[who]
            if n >= len(spec['texts']):
                continue
            made[who][3] += 1
            if n == len(spec['texts']) - 1:   # Its last one, then it ends
                with ping.cond:
                    ping.turn = who
                    ping.cond.notify_all()
                th.join(10)
                need(not th.is_alive(), 'thread {} does not end', who)
            else:
                ping.give(who, th)
        for who, (th, spec, said, n) in made.items():
            while made[who][3] < len(spec['texts']):
                made[who][3] += 1
                if made[who][3] == len(spec['texts']):
                    with ping.cond:
                        ping.turn = who
                        ping.cond.notify_all()
                    th.join(10)
                    need(not th.is_alive(), 'thread {} does not end', who)
                else:
                    ping.give(who, th)
        traces = 0
        for who, (th, spec, said, n) in made.items():
            bad = spec['end'] == 'raise'
            need(th.exitcode == (-1 if bad else 0), 'exitcode of thread {}, which {}, is {}', who, 'failed' if bad else 'ended well', th.exitcode)
            redirected = spec['redirect'] and case['layers'] > 0
            for s in ('out', 'err'):
                text = ''.join(t for q, t in said if q == s)
                if redirected:
                    got = content(d, who, s)
                    rest = TRACE.sub('', got, 1) if s == 'err' else got
                    need(s == 'out' or bad == (rest != got), 'errors of thread {} in its file: {!r}', who, got)
                    need(rest == text, 'thread {} printed {!r}, its file holds {!r}', who, text, rest)
            if not redirected:
                traces += bad
        need(len(list((d / DIR).iterdir())) == 2 * sum(q[1]['redirect'] and case['layers'] > 0 for q in made.values()), 'files {}',
             sorted(p.name for p in (d / DIR).iterdir()))
        if not case['layers']:
            warned = sum('Prinstream redirect failed' in str(x.message) for x in seen)
            need(bool(warned) == any(q[1]['redirect'] for q in made.values()), '{} warnings about missing redirection', warned)
        for k, s in enumerate(('out', 'err')):
            plain = [t for t in console[s]] + [t for th, spec, said, n in made.values() if not (spec['redirect'] and case['layers'])
                                               for q, t in said if q == s]
            got = TRACE.sub('', cons[k].getvalue())
            need(len(got) == sum(map(len, plain)) and all(t in got for t in plain), 'the console got {!r} instead of {}', got, plain)
        need(len(TRACE.findall(cons[1].getvalue())) == traces, 'tracebacks on the console: {}, expected {}', cons[1].getvalue(), traces)
        return {'ok': True, 'nt': len(made) > 1, 'tags': ['threads', f'layers{case["layers"]}']}


def job(texts, end, say):
    for t in texts:
        say(*t)
    if end == 'raise':
        raise E.OptError('scripted failure 1')
    if end == 'exit':
        sys.exit(3)
    return 1


def processes(case):
    with E.scratch() as d:
        (d / DIR).mkdir()
        ps = []
        with E.quiet():
            cons = E.CONSOLE
            for k, spec in case['procs'].items():
                p = mp.Process(target=process_print_redirect(k, d, job), args=(spec['texts'], spec['end'], E.say), daemon=True)
                p.start()
                ps.append((k, spec, p))
            for k, spec, p in ps:
                p.join(30)
                need(p.exitcode == {'raise': 1, 'exit': 3, 'normal': 0}[spec['end']], 'process {} ({}) has exit code {}', k, spec['end'], p.exitcode)
            need(sys.stdout is cons[0] and sys.stderr is cons[1], 'the streams of the parent were replaced')
        need([c.getvalue() for c in cons] == ['', ''], 'the parent printed {}', [c.getvalue() for c in cons])
        for k, spec, p in ps:
            for s in ('out', 'err'):
                text = ''.join(arrives(t) for t in spec['texts'] if t[0] == s)
                got = content(d, k, s)
                if s == 'err' and spec['end'] == 'raise':
                    rest = TRACE.sub('', re.sub(r'Process .*:\n(?=Traceback)', '', got), 1)
                    need(rest != got, 'the traceback is missing: {!r}', got)
                    got = rest
                need(got == text, 'process {} printed {!r}, its file holds {!r}', k, text, got)
        need(len(list((d / DIR).iterdir())) == 2 * len(ps), 'files {}', sorted(p.name for p in (d / DIR).iterdir()))
    return {'ok': True, 'nt': len(ps) > 1, 'tags': ['processes']}


def arrives(t):
    stream, how, text = t
    return text + {'several': '|1|None', 'write': ''}.get(how, '\n')


def run(case):
    k = case['kind']
    if k == 'threads':
        E.RUN = None
        return threads({**case, 'threads': {int(a): b for a, b in case['threads'].items()}})
    if k == 'processes':
        E.RUN = None
        return processes({**case, 'procs': {int(a): b for a, b in case['procs'].items()}})
    return session(case)
