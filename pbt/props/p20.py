""" The queue of results. """
import queue
import random
import sys
import threading
import time

from glompo.core._backends import ChunkingQueue
from verdict import need


def run(case):
    return threads(case) if case['kind'] == 'threads' else model(case)


def model(case):
    size, chunk = case['size'], case['chunk']
    q = ChunkingQueue(size, chunk)
    stored, cache, fast = [], [], False  # Reference: chunks in the queue, items waiting
    out, sent = [], []
    n, used, fulls = 0, set(), 0

    def room():
        return size <= 0 or len(stored) < size

    def push():
        nonlocal cache
        stored.append(cache)
        cache = []

    def state(what):
        need(q.qsize() == len(stored), 'after {}: the queue holds {} chunks instead of {}', what, q.qsize(), len(stored))
        need(bool(q.has_cache()) == bool(cache), 'after {}: has_cache is {} although {} items wait', what, q.has_cache(), len(cache))

    def take(what):
        c = list(q.get(False))
        w = stored.pop(0)
        need(c == w, 'after {}: the chunk is {} instead of {}', what, c, w)
        out.extend(c)

    for op in case['ops']:
        k = op[0]
        if k == 'now':
            for _ in range(op[1]):
                item = n
                if fast and len(cache) + 1 >= chunk and not room():
                    # Must wait until the manager takes a chunk
                    t = threading.Thread(target=q.put_nowait, args=(item,), daemon=True)
                    t.start()
                    t.join(0.01)
                    need(t.is_alive(), 'put_nowait of item {} returned although cache and queue are full', item)
                    take('a full queue')
                    t.join(10)
                    need(not t.is_alive(), 'put_nowait did not continue when there was room in the queue')
                    cache.append(item)
                    push()
                    used.add('blocked')
                else:
                    q.put_nowait(item)
                    if fast:
                        cache.append(item)
                        if len(cache) >= chunk:
                            push()
                            used.add('chunk')
                    elif room():
                        stored.append([item])
                    else:
                        fast = True
                        cache.append(item)
                        used.add('cached')
                sent.append(item)
                n += 1
                state(f'put_nowait of {item}')
        elif k == 'put':
            item, n = n, n + 1
            try:
                if op[1] == 'nb':
                    q.put(item, False)
                else:
                    q.put(item, True, 0.002)
                ok = True
            except queue.Full:
                ok, fulls = False, fulls + 1
            need(ok == room(), 'put with {} of {} chunks in the queue {}', len(stored), size, 'succeeded' if ok else 'failed')
            if fast:
                cache.append(item)  # Documented: first added to the cache
                sent.append(item)
                if ok:
                    push()
            elif ok:
                stored.append([item])
                sent.append(item)
            state(f'put of {item}')
        elif k == 'incache':
            q.put_incache(n)
            fast = True
            cache.append(n)
            sent.append(n)
            n += 1
            used.add('cached')
            state('put_incache')
        elif k == 'flush':
            if not cache:
                if not fast:
                    q.flush(False)
                    state('flush without cache')
                continue
            try:
                q.flush(False) if op[1] == 'nb' else q.flush(True, 0.002)
                ok = True
            except queue.Full:
                ok, fulls = False, fulls + 1
            need(ok == room(), 'flush with {} of {} chunks in the queue {}', len(stored), size, 'succeeded' if ok else 'failed')
            if ok:
                push()
            state('flush')
        else:
            for _ in range(op[1]):
                if not stored:
                    try:
                        c = q.get(False)
                    except queue.Empty:
                        break
                    need(False, 'the queue should be empty but gave {}', c)
                take('get')
            state('get')
    while stored or cache:
        if stored:
            take('the end')
        else:
            q.flush(False)
            push()
    need(out == sent, 'items {} were put but {} came out', sent, out)
    need(not q.has_cache() and q.qsize() == 0, 'something is left at the end')
    return {'ok': True, 'nt': 'cached' in used and len(out) > 2, 'tags': sorted(used) + (['full'] if fulls else [])}


def threads(case):
    """ Real threads: nothing is lost or repeated and the items of each producer stay in order. """
    rnd = random.Random(case['seed'])
    q = ChunkingQueue(case['size'], case['chunk'])
    plans = [[rnd.choice(case['how']) for _ in range(case['items'])] for _ in range(case['producers'])]
    errors = []

    def produce(p):
        try:
            for i, how in enumerate(plans[p]):
                if how == 'now':
                    q.put_nowait((p, i))
                elif how == 'put':
                    q.put((p, i))
                else:
                    q.put_incache((p, i))
                if i % 7 == p:
                    time.sleep(0)
        except BaseException as e:  # noqa
            errors.append(e)

    got = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=produce, args=(p,), daemon=True) for p in range(case['producers'])]
        for t in ts:
            t.start()
        end = time.time() + 20
        while any(t.is_alive() for t in ts) or q.qsize():
            need(time.time() < end, 'producers are stuck: {} of {} items received', len(got), case['items'] * case['producers'])
            try:
                c = q.get(True, 0.005)
            except queue.Empty:
                continue
            need(len(c) > 0 and case['size'] > 0 and q.qsize() <= case['size'] or case['size'] <= 0, 'the queue holds {} chunks', q.qsize())
            got.extend(c)
            if rnd.random() < case['pause']:
                time.sleep(0.001)
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        raise e
    cached = 0
    while q.has_cache():
        q.flush(False)
        c = q.get(False)
        cached += len(c)
        got.extend(c)
    for p in range(case['producers']):
        mine = [i for r, i in got if r == p]
        need(mine == list(range(case['items'])), 'producer {} put 0..{} but {} came out', p, case['items'] - 1, mine)
    need(len(got) == case['items'] * case['producers'], '{} items came out instead of {}', len(got), case['items'] * case['producers'])
    return {'ok': True, 'nt': case['producers'] > 1 and bool(q.fast_func), 'tags': ['threads'] + (['flushed'] if cached else [])}
