import errno
import hashlib
import os
import shutil
import signal
import sys
import tarfile
import time
from pathlib import Path

import dill

import ckpt
import e2e
import engine as E
import naming
from verdict import need
from ._e2e import tags as run_tags

MUST_FAIL = ('tar', 'tar-os', 'plugin', 'nodir', 'dill0', 'dill1')


def listing(d):
    res = {}
    if d.is_dir():
        for f in d.iterdir():
            res[f.name] = hashlib.sha1(f.read_bytes()).hexdigest() if f.is_file() else 'dir'
    return res


def ages(d):
    return {f.name: f.stat().st_mtime_ns for f in d.iterdir() if f.is_file()} if d.is_dir() else {}


def matches(tokens, name):
    return bool(naming.counts(tokens, name))


def complete(path, loadable=False):
    """ The archive can be read to its end and has all its parts. """
    try:
        with tarfile.open(str(path), 'r:gz') as t:
            names = {m.name for m in t.getmembers()}
            for m in t.getmembers():
                if m.isfile():
                    t.extractfile(m).read()
    except Exception as e:
        return f'unreadable: {e!r}'
    lack = {'manager', 'opt_log', 'optimizers'} - {n.lstrip('./') for n in names}
    return f'without {sorted(lack)}' if lack else ''


def after_success(tokens, keep, before, age, after, new):
    """ Files expected after the checkpoint `new` was made. """
    want = set(before) | {new}
    if keep >= 0:
        old = sorted((n for n in before if n != new and before[n] != 'dir' and matches(tokens, n)),
                     key=lambda n: age[n], reverse=True)
        want -= set(old[keep:])
    need(set(after) == want, 'after checkpoint {} (keep_past={}) the directory holds {}, it should hold {} (before, oldest '
         'first: {})', new, keep, sorted(after), sorted(want), sorted(before, key=lambda n: age.get(n, 0)))
    for n in after:
        if n != new:
            need(after[n] == before[n], 'file {} was changed by checkpoint {}', n, new)


class Fault:
    """ Makes one step of the construction of a checkpoint fail. """

    def __init__(self, kind, m, run):
        self.kind, self.m, self.undo = kind, m, []
        me = run.gate.owner
        fired = self.fired = []
        if kind in ('tar', 'tar-os'):
            orig = tarfile.TarFile.add

            def add(tf, name, *a, **k):
                if not fired:
                    fired.append(1)
                    tf.fileobj.write(b'x' * 2000)
                raise tarfile.TarError('injected') if kind == 'tar' else OSError(errno.ENOSPC, 'injected')
            tarfile.TarFile.add = add
            self.undo.append(lambda: setattr(tarfile.TarFile, 'add', orig))
        elif kind == 'plugin':
            m.x0_generator.bad = (i for i in [])
            fired.append(1)
            self.undo.append(lambda: delattr(m.x0_generator, 'bad'))
        elif kind.startswith('dill'):
            import threading
            orig, n = dill.dump, [int(kind[4:])]

            def dump(*a, **k):
                if threading.current_thread() is me:
                    n[0] -= 1
                    if n[0] < 0:
                        fired.append(1)
                        raise OSError(errno.ENOSPC, 'injected')
                return orig(*a, **k)
            dill.dump = dump
            self.undo.append(lambda: setattr(dill, 'dump', orig))

    def off(self):
        for u in self.undo:
            u()


def populate(case, cdir, tokens):
    """ Files which are there already. """
    if not case.get('existing'):
        return
    import datetime
    cdir.mkdir(parents=True)
    t0 = datetime.datetime(2021, 3, 4, 5, 6, 7)
    now = time.time() - 100000
    for k, (idx, tail, age, as_dir) in enumerate(case['existing']):
        n = naming.render(tokens, t0, idx) + tail
        p = cdir / n
        if p.exists():
            continue
        if as_dir:
            p.mkdir()
        else:
            p.write_bytes(f'file {k}'.encode())
        os.utime(str(p), (now + age * 50 + k, now + age * 50 + k))


def session(case):
    c = case['ckpt']
    tokens = case['tokens']
    c['format'] = naming.fmt(tokens)
    kind = case.get('cfault')
    with E.scratch() as base:
        wd, cdir = base / 'work', base / 'chk'
        wd.mkdir()
        if kind == 'nodir':
            cdir.write_text('not a directory')
        else:
            populate(case, cdir, tokens)
        st = {'n': 0, 'results': [], 'fault': None, 'last': 0}

        def around(run, m, when, info):
            if when == 'before':
                st['before'], st['age'], st['hist'] = listing(cdir), ages(cdir), set(m.checkpoint_history)
                st['armed'] = bool(kind) and st['n'] in case['cwhen']
                if st['armed']:
                    st['fault'] = Fault(kind, m, run)
                st['n'] += 1
                return
            if st['fault']:
                st['fault'].off()
            fired = bool(st['fault'] and st['fault'].fired) or kind == 'nodir'
            st['fault'] = None
            after = listing(cdir)
            before, age = st['before'], st['age']
            new = [n for n in after if before.get(n) != after[n]]
            ev = run.events[info['notes']:]
            skipped = any(e[0] in ('ckpt_skip', 'ckpt_raise') for e in ev)
            st['results'].append(dict(before=before, age=age, after=after, new=new, hist0=st['hist'],
                                      hist=set(m.checkpoint_history), error=info['error'], skipped=skipped,
                                      fail=skipped or (st['armed'] and fired and kind in MUST_FAIL) or kind == 'nodir',
                                      may_fail=(st['armed'] and fired) or any(  # The name may be taken by a directory
                                          v == 'dir' and matches(tokens, n) for n, v in before.items())))

        def early(run):
            ckpt.prepare(case, wd, run)
            run.ckpt_hooks.append(around)

        def prep(m, run):
            run.user_stopped = set()
            e2e.track_slots(case, run)
            e2e.track_stops(run)
        extra = {'checkpoint_control': ckpt.control(case, cdir)}
        E.set_task_kind(case.get('task_kind'))
        try:
            out, r, m = e2e.execute(case, wd, prepare=prep, extra=extra, early=early)
        except Exception as e:
            init_fail = c.get('init') and c.get('raise') and st['results'] and (st['results'][0]['fail'] or st['results'][0]['may_fail'])
            if init_fail and 'injected' not in case:
                judge(case, st['results'], tokens, None)
                return {'ok': True, 'nt': True, 'tags': ['raised-at-init']}
            raise
        finally:
            E.set_task_kind(None)
        e2e.base(case, out, r)
        raised = [q for q in st['results'] if q['error'] is not None]
        if raised:
            need(c.get('raise') and len(raised) == 1, 'a failed checkpoint raised {!r} out of the manager', raised[0]['error'])
            need(e2e.crashed(out), 'the session did not end in error')
        else:
            e2e.no_spurious_crash(case, out, r)
        failed = judge(case, st['results'], tokens, out)
        e2e.check_told(case, out, r)
        e2e.check_accounting(case, out, r)
        t = run_tags(case, out, r) + ([kind] if kind else ['no-fault'])
        if failed:
            t.append('failed')
        # What is left can be resumed
        good = [s for s in r.snaps if Path(s['path']).exists()]
        if good and not failed:
            run2 = E.Run(case, None)
            E.RUN = run2
            s = good[-1]
            tk = case.get('task_kind')
            over = {} if not tk else {'task_loader': E.load_task} if tk.endswith('save') else {'task': E.Task(case.get('extras', 0), case.get('heads'))}
            if (kind or '').startswith('dill') and not over:
                with tarfile.open(str(s['copy'])) as tf:  # The step which failed may have been the saving of the task
                    if 'task' not in {q.name.lstrip('./') for q in tf.getmembers()}:
                        over = {'task': E.Task(case.get('extras', 0), case.get('heads'))}
            m2 = ckpt.load(case, s, run2, **over)
            need(m2.f_counter == s['counters']['f_counter'], 'the checkpoint was not restored')
            need(m2.task([3.0, 0.0, 0.0]) == 3.0 and m2.task.n_extra == case.get('extras', 0), 'wrong task')
        return {'ok': True, 'nt': bool(failed) or any(len(q['before']) > 0 for q in st['results']), 'tags': t}


def judge(case, results, tokens, out):
    c = case['ckpt']
    keep = c.get('keep', -1)
    failed = 0
    for k, q in enumerate(results):
        if q['fail'] or (q['may_fail'] and not q['new']):
            failed += 1
            q['failed'] = True
            need(q['after'] == q['before'], 'checkpoint {} failed but changed the directory from {} to {}', k,
                 sorted(q['before'].items()), sorted(q['after'].items()))
            need(q['hist'] == q['hist0'], 'a failed checkpoint is listed as made: {}', q['hist'] - q['hist0'])
            if c.get('raise'):
                need(q['error'] is not None, 'a failed checkpoint did not end the session though that was configured')
            continue
        need(q['error'] is None, 'checkpoint {} raised {!r}', k, q['error'])
        need(len(q['new']) == 1 and q['new'][0].endswith('.tar.gz'), 'checkpoint {} made files {}', k, q['new'])
        new = q['new'][0]
        need(matches(tokens, new), 'the checkpoint is called "{}", which does not match "{}"', new, naming.fmt(tokens))
        after_success(tokens, keep, q['before'], q['age'], q['after'], new)
        need(any(h.endswith('/' + new) for h in q['hist']), 'checkpoint "{}" is not listed in {}', new, q['hist'])
    if failed and out is not None and not c.get('raise'):
        w = [x for x in out.warnings if 'Checkpointing failed' in x]
        n0 = 1 if c.get('init') and results[0].get('failed') else 0  # That warning came from setup
        need(len(w) >= failed - n0, '{} checkpoints failed, {} warnings were given', failed, len(w))
    return failed


def crash(case):
    """ The process dies in the middle of a checkpoint. """
    tokens = case['tokens']
    with E.scratch() as base:
        wd, cdir = base / 'work', base / 'chk'
        wd.mkdir()
        populate(case, cdir, tokens)
        case['ckpt']['format'] = naming.fmt(tokens)
        extra = {'checkpoint_control': ckpt.control(case, cdir)}
        E.set_task_kind(None)
        m, run = E.new_run(case, wd, extra=extra)
        E.RUN = None
        with E.quiet():
            for _ in range(case['made']):
                m.checkpoint()
        before, age = listing(cdir), ages(cdir)
        total = None
        for turn in range(2):
            limit = None if turn == 0 else max(1, int(case['crash_at'] * total))
            target = cdir
            if turn == 0:  # Measured on a copy
                shutil.copytree(str(cdir), str(base / 'saved'), copy_function=shutil.copy2) if cdir.exists() else None
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    count = [0]

                    def local(frame, event, arg):
                        if event == 'line':
                            count[0] += 1
                            if limit is not None and count[0] >= limit:
                                os._exit(7)
                        return local

                    def glob(frame, event, arg):
                        f = frame.f_code.co_filename
                        if '/glompo/core/' in f or (case.get('fine') and f.endswith(('tarfile.py', 'gzip.py'))):
                            return local
                        return None
                    sys.settrace(glob)
                    try:
                        with E.quiet():
                            m.checkpoint()
                    finally:
                        sys.settrace(None)
                    os.write(w, str(count[0]).encode())
                    os._exit(0)
                except BaseException as e:
                    os.write(w, ('!' + repr(e)).encode()[:500])
                    os._exit(1)
            os.close(w)
            data = b''
            while True:
                d = os.read(r, 1000)
                if not d:
                    break
                data += d
            os.close(r)
            _, rc = os.waitpid(pid, 0)
            if turn == 0:
                text = data.decode()
                need(text.isdigit(), 'the checkpoint failed: {}', text)
                total = int(text)
                # Back to the state before
                shutil.rmtree(str(cdir), ignore_errors=True)
                if (base / 'saved').exists():
                    shutil.copytree(str(base / 'saved'), str(cdir), copy_function=shutil.copy2)
        after = listing(cdir)
        gone = [n for n in before if n not in after]
        changed = [n for n in before if n in after and after[n] != before[n]]
        fresh = [n for n in after if n not in before and after[n] != 'dir' and matches(tokens, n)]
        where = f"{case['crash_at']:.4f} of the way"
        for n in changed + fresh:
            why = complete(cdir / n)
            need(not why, 'killed {}, the checkpoint {} is {}', where, n, why)
        need(len(changed) <= 1, 'killed {}, the files {} changed', where, changed)
        for n in gone:
            need(matches(tokens, n) and case['ckpt'].get('keep', -1) >= 0 and (changed or fresh),
                 'killed {}, {} is lost although no new checkpoint exists ({})', where, n, sorted(after))
        return {'ok': True, 'nt': bool(before), 'tags': ['process-death', 'lost-some' if gone else 'kept-all',
                                                         'new' if changed or fresh else 'no-new']}


def run(case):
    return crash(case) if case.get('kind') == 'crash' else session(case)
