""" CPython side of the harness: generates cases with Hypothesis, sends them to PyPy workers, shrinks failures,
writes the evidence and the replay file. """
import argparse
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PYPY = '/opt/venv-pypy/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def worker_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg',
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONPATH=REPO, TMPDIR=os.path.join(scratch, 'tmp'),
               VERIF_REPO=REPO, VERIF_STACKS=os.path.join(scratch, f'stacks.{os.getpid()}'))
    return env


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


class Worker:
    """ A PyPy process evaluating cases. Restarted when it hangs or dies. """

    def __init__(self, scratch, timeout):
        self.scratch, self.timeout = scratch, timeout
        self.p = None
        self.n = 0

    def start(self):
        os.makedirs(os.path.join(self.scratch, 'tmp'), exist_ok=True)
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=worker_env(self.scratch), cwd=self.scratch,
                                  start_new_session=True,
                                  stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def run(self, prop, case, timeout=None):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.n += 1
        data = (json.dumps({'prop': prop, 'case': case}) + '\n').encode()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {'ok': None, 'harness': 'worker died on input'}
        end = time.monotonic() + (timeout or self.timeout)
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                stacks = ''
                try:
                    os.kill(self.p.pid, signal.SIGUSR1)
                    time.sleep(0.5)
                    stacks = open(os.path.join(self.scratch, f'stacks.{os.getpid()}')).read()[-6000:]
                except OSError:
                    pass
                self.stop()
                return {'ok': None, 'hang': True, 'trace': stacks}
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 1))
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    rc = self.p.wait()
                    self.stop()
                    return {'ok': None, 'harness': f'worker died (rc {rc})', 'died': True}
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Shard:
    """ One Hypothesis search. """

    def __init__(self, spec, scratch, seed, n, budget):
        self.spec, self.seed, self.n = spec, seed, n
        self.deadline = time.monotonic() + budget
        self.shrink_s = spec.get('shrink_s', 25)
        self.worker = Worker(scratch, spec.get('timeout', 60))
        self.evals, self.skipped = 0, 0
        self.seen, self.tags, self.samples = set(), Counter(), []
        self.known = {}
        self.fail, self.fail_at = None, None
        self.cache = {}
        self.harness = []
        self.slowest = (0, None)
        self.limit = spec.get('max_restarts', 400)

    def judge(self, case):
        v = self.worker.run(self.spec['id'], case)
        if v.get('hang') and self.spec.get('hang_is_violation'):
            # Only believed if it happens again in a fresh process
            v2 = self.worker.run(self.spec['id'], case)
            if v2.get('hang'):
                return {'ok': False, 'nt': True, 'msg': f"no answer within {self.worker.timeout} s (twice)",
                        'trace': v.get('trace')}
            return v2
        if v.get('ok') is None:
            v2 = self.worker.run(self.spec['id'], case)
            if v2.get('ok') is None:
                self.harness.append({'case': case, 'why': (v2.get('harness') or 'hang')[-1500:],
                                     'trace': v2.get('trace')})
                return {'ok': True, 'nt': False, 'tags': ['harness-error']}
            return v2
        return v

    def one(self, case):
        now = time.monotonic()
        if self.fail is not None:
            key = digest(case)
            if key in self.cache:
                return self.cache[key]
            if now - self.fail_at > self.shrink_s:
                return True
        elif now > self.deadline:
            self.skipped += 1
            return True
        v = self.judge(case)
        took = time.monotonic() - now
        if took > self.slowest[0]:
            self.slowest = (round(took, 2), case)
        self.evals += 1
        for t in v.get('tags', ()):
            self.tags[t] += 1
        if v.get('known'):
            self.known.setdefault(v['known'], (case, v.get('msg')))
        if v.get('nt'):
            d = digest(case)
            if d not in self.seen:
                self.seen.add(d)
                if len(self.samples) < 3 and (len(self.seen) in (1, 7, 40)):
                    self.samples.append(case)
        if v['ok'] is False:
            size = len(json.dumps(case))
            if self.fail is None:
                self.fail_at = time.monotonic()
            if self.fail is None or size <= self.fail['size']:
                self.fail = {'case': case, 'msg': v['msg'], 'size': size, 'trace': v.get('trace')}
            self.cache[digest(case)] = False
            return False
        return True

    def search(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings

        strat = self.spec['strategy']()

        @seed(self.seed)
        @settings(max_examples=self.n, database=None, deadline=None, derandomize=False, print_blob=False,
                  report_multiple_bugs=False, verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))
        @given(strat)
        def test(case):
            assert self.one(case)

        try:
            test()
        except AssertionError:
            pass
        except BaseException as e:  # Flaky failures: self.fail has the case
            if self.fail is None:
                raise
            del e
        finally:
            self.worker.stop()

    def report(self):
        return {'evals': self.evals, 'skipped': self.skipped, 'seen': sorted(self.seen), 'tags': self.tags,
                'samples': self.samples, 'fail': self.fail, 'harness': self.harness[:5],
                'n_harness': len(self.harness), 'slowest': self.slowest, 'known': self.known}


def run_shard(prop, scratch, seed, n, budget, out):
    import strategies
    spec = strategies.SPECS[prop]
    s = Shard(spec, scratch, seed, n, budget)
    try:
        s.search()
        rep = s.report()
    except BaseException as e:  # noqa
        import traceback
        rep = {'crash': traceback.format_exc()[-3000:]}
        del e
    with open(out, 'w') as f:
        json.dump(rep, f)


def regressions(prop):
    d = os.path.join(ROOT, 'regress', prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.json')]


def replay(spec, path, tries=1):
    with open(path) as f:
        data = json.load(f)
    case = data['case']
    with Scratch() as sc:
        sh = Shard(spec, sc, 1, 1, 1)
        v = None
        for _ in range(tries):
            v = sh.judge(case)
            if v['ok'] is False:
                break
        sh.worker.stop()
    return v, sh.harness


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shards', type=int)
    ap.add_argument('--n', type=int)
    ap.add_argument('--evidence', default=os.path.join(ROOT, 'evidence'))
    a = ap.parse_args(argv)
    import strategies
    spec = strategies.SPECS[a.prop]

    if a.replay:
        v, harness = replay(spec, a.replay, tries=3)
        print(json.dumps(v, indent=1))
        if v['ok'] is False:
            print(f'VIOLATION property={a.prop} replay={a.replay}')
            return 1
        return 2 if harness else 0

    t0 = time.time()
    thorough = a.tier == 'thorough'
    shards = a.shards or spec.get('shards', 8)
    total = a.n or (spec['thorough'] if thorough else spec['quick'])
    budget = spec.get('thorough_s', 1500) if thorough else spec.get('quick_s', 60)
    per = max(1, -(-total // shards))
    os.makedirs(a.evidence, exist_ok=True)
    rep_dir = os.path.join(a.evidence, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(a.prop + '-'):
            os.unlink(os.path.join(rep_dir, f))

    with Scratch() as sc:
        procs = []
        for i in range(shards):
            d = os.path.join(sc, f's{i}')
            os.makedirs(d)
            out = os.path.join(sc, f'r{i}.json')
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--shard', a.prop, d,
                                  str(a.seed * 1000 + i), str(per), str(budget), out],
                                 start_new_session=True)
            procs.append((p, out))
        # Saved inputs are replayed while the searches run
        sh = Shard(spec, os.path.join(sc, 'reg'), 1, 1, 3600)
        os.makedirs(sh.worker.scratch)
        saved = []
        for path in regressions(a.prop):
            with open(path) as f:
                case = json.load(f)['case']
            v = sh.judge(case)
            saved.append(digest(case))
            sh.evals += 1
            for t in v.get('tags', ()):
                sh.tags[t] += 1
            if v.get('known'):
                sh.known.setdefault(v['known'], (case, v.get('msg')))
            if v.get('nt'):
                sh.seen.add(digest(case))
            if v['ok'] is False and sh.fail is None:
                sh.fail = {'case': case, 'msg': v['msg'], 'size': -1, 'trace': v.get('trace')}
        sh.worker.stop()
        reps = [sh.report()]
        hard = budget + 4 * spec.get('timeout', 60) + 60
        for p, out in procs:
            try:
                p.wait(max(1, t0 + hard - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            try:
                with open(out) as f:
                    reps.append(json.load(f))
            except (OSError, ValueError):
                reps.append({'crash': 'the search did not finish in time'})

        crashes = [r['crash'] for r in reps if 'crash' in r]
        good = [r for r in reps if 'crash' not in r]
        tags, seen, samples, known = Counter(), set(), [], {}
        for r in good:
            tags.update(r['tags'])
            seen.update(r['seen'])
            samples += r['samples']
            for k, v in r['known'].items():
                known.setdefault(k, v)
        n_evals = sum(r['evals'] for r in good)
        n_harness = sum(r['n_harness'] for r in good)
        fails = sorted((r['fail'] for r in good if r['fail']), key=lambda f: f['size'])

        # A failure is believed when it can be shown again in a fresh process
        confirmed, unconfirmed = None, []
        with Scratch() as sc2:
            for f in fails[:4]:
                s2 = Shard(spec, sc2, 1, 1, 3600)
                for _ in range(spec.get('confirm', 4)):
                    v = s2.judge(f['case'])
                    s2.worker.stop()
                    if v['ok'] is False:
                        confirmed = {**f, 'msg': v['msg'], 'trace': v.get('trace')}
                        break
                if confirmed:
                    break
                unconfirmed.append(f)

    violations = []
    if confirmed:
        path = os.path.join(rep_dir, f"{a.prop}-{digest(confirmed['case'])}.json")
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'case': confirmed['case'], 'msg': confirmed['msg'],
                       'trace': confirmed.get('trace'), 'seed': a.seed}, f, indent=1)
        violations.append({'replay': path, 'what': confirmed['msg']})

    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        listed = {k['id']: k for k in json.load(f)['findings'] if k['property'] == a.prop}
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': spec.get('level', 'exploration'),
          'coverage': {'evaluations': n_evals, 'distinct_nontrivial': len(seen), 'rule': spec['rule'],
                       'samples': [json.dumps(s)[:1500] for s in samples[:6]],
                       'classes': dict(sorted(tags.items())),
                       'shards': shards, 'saved_inputs_replayed': len(saved),
                       'not_run_for_time': sum(r['skipped'] for r in good),
                       'inconclusive': n_harness,
                       'unconfirmed': [json.dumps(f['case'])[:800] + ' -> ' + f['msg'][:300] for f in unconfirmed]},
          'wall_s': round(time.time() - t0, 1), 'violations': violations,
          'known_findings': sorted(known), 'assumptions': spec.get('assumptions', [])}
    with open(os.path.join(a.evidence, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k, v in sorted(known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={a.prop} {k} {listed[k]['what']}")
    unlisted = [k for k in known if k not in listed]
    print(f"{a.prop} [{a.tier}] seed={a.seed}: {n_evals} cases, {len(seen)} distinct non-trivial, "
          f"{ev['coverage']['not_run_for_time']} not run, {n_harness} inconclusive, {ev['wall_s']} s")
    print('classes: ' + ', '.join(f'{k}={v}' for k, v in sorted(tags.items())))
    slow = max((r['slowest'] for r in good), key=lambda s: s[0])
    print(f'slowest case: {slow[0]} s' + (' ' + json.dumps(slow[1])[:1500] if slow[0] > 3 else ''))
    if n_harness:
        for r in good:
            for x in r['harness'][:1]:
                print('inconclusive because: ' + x['why'][-700:])
    if violations:
        print('what failed: ' + confirmed['msg'][:1500])
        if confirmed.get('trace'):
            print(confirmed['trace'][-2500:])
        print(f"VIOLATION property={a.prop} replay={violations[0]['replay']}")
        return 1
    if unlisted:
        path = os.path.join(rep_dir, f'{a.prop}-{unlisted[0]}.json')
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'case': known[unlisted[0]][0], 'msg': known[unlisted[0]][1]}, f)
        print('what failed: ' + str(known[unlisted[0]][1]))
        print(f'VIOLATION property={a.prop} replay={path}')
        return 1
    if crashes:
        print('HARNESS ERROR: ' + crashes[0][-1500:])
        return 2
    if n_harness:
        h = [x for r in good for x in r['harness']]
        print('inconclusive case: ' + json.dumps(h[0])[:3000])
        if n_harness > max(3, n_evals // 50):
            print('HARNESS ERROR: too many inconclusive cases')
            return 2
    if unconfirmed:
        print('unconfirmed: ' + unconfirmed[0]['msg'][:500] + ' ' + json.dumps(unconfirmed[0]['case'])[:1500])
    return 0


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--shard':
        run_shard(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]), sys.argv[7])
    else:
        sys.exit(main())
