""" Builds and checks planted bugs: plant.py SPEC.py... ; every SPEC defines PROPERTY, NEEDS, WHAT, EDITS, DEMO.
Works on scratch copies of /repo. """
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
SEEDED = HERE.parent / 'seeded'
FIRST = '138750f'
PY = '/opt/venv-pypy/bin/python'


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=env)


def original(path):
    r = subprocess.run(['git', 'show', f'{FIRST}:{path}'], cwd='/repo', stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def demo(folder, cwd):
    env = {**os.environ, 'PYTHONPATH': str(cwd), 'PYTHONDONTWRITEBYTECODE': '1'}
    try:
        return sh(f'timeout 280 bash {folder}/demo.sh', cwd, env=env)
    except subprocess.TimeoutExpired:
        return None


def tests(cwd, tmp):
    env = {**os.environ, 'PYTHONPATH': str(cwd), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'MPLBACKEND': 'agg', 'MPLCONFIGDIR': f'{tmp}/mpl', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
           'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}
    sh(f'timeout -k 10 780 {PY} -m pytest -q --run-minimize -o cache_dir={tmp}/cache --basetemp={tmp}/bt '
       f'--timeout=120 --continue-on-collection-errors --junitxml={tmp}/junit.xml tests', cwd, 900, env)
    sh(f'/usr/bin/python3 /opt/vp/results.py {tmp}/out.json junit:{tmp}/junit.xml', cwd, env=env)
    passed = set(json.load(open(f'{tmp}/out.json'))['passed'])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)


RETRY = threading.Lock()


def tests_retry(cwd, tmp):
    failed = tests(cwd, tmp)
    if 0 < len(failed) <= 4:  # Some depend on timing, and several copies run at once
        with RETRY:
            failed = tests(cwd, tmp)
    return failed


def one(spec):
    ns = {}
    exec(Path(spec).read_text(), ns)
    bug = Path(spec).stem
    folder = SEEDED / bug
    tmp = Path(tempfile.mkdtemp(prefix='plant_'))
    try:
        cp = tmp / 'repo'
        subprocess.run(['cp', '-a', os.environ.get('SRC', '/repo'), str(cp)], check=True)
        for cache in [*cp.rglob('__pycache__')]:
            shutil.rmtree(cache)
        orig_line = False
        for file, old, new in ns['EDITS']:
            text = (cp / file).read_text()
            if text.count(old) != 1:
                return bug, f'edit: {file}: {text.count(old)} matches of {old[:60]!r}'
            (cp / file).write_text(text.replace(old, new))
        patch = sh('git diff', cp).stdout
        for file in {e[0] for e in ns['EDITS']}:
            base = set(original(file))
            gone = [l[1:] for l in sh(f'git diff {file}', cp).stdout.splitlines()
                    if l.startswith('-') and not l.startswith('---')]
            orig_line |= any(l.strip() and l in base for l in gone)
        if not orig_line:
            return bug, 'changes no original line'
        work = tmp / 'demo'
        work.mkdir()
        shutil.copy(HERE / 'plant' / 'h.py', work / 'h.py')
        (work / 'demo.py').write_text('from h import *\n' + ns['DEMO'].lstrip('\n'))
        (work / 'demo.sh').write_text('#!/bin/bash\n' + f'exec {PY} "$(dirname "$0")/demo.py"\n')
        bad = demo(work, cp)
        if bad is not None and bad.returncode == 0:
            return bug, 'demo passes with the change:\n' + bad.stdout[-1500:]
        sh('git checkout -- .', cp)
        for _ in range(3):
            good = demo(work, cp)
            if good is None or good.returncode != 0:
                return bug, 'demo fails without the change:\n' + (good.stdout[-2500:] if good else 'timeout')
        (tmp / 'p.diff').write_text(patch)
        if sh(f'git apply {tmp}/p.diff', cp).returncode:
            return bug, 'patch does not apply'
        failed = tests_retry(cp, tmp)
        if failed:
            return bug, f'tests fail: {failed[:6]}'
        if folder.exists():
            shutil.rmtree(folder)
        shutil.copytree(work, folder, ignore=shutil.ignore_patterns('__pycache__'))
        (folder / 'patch.diff').write_text(patch)
        (folder / 'meta.json').write_text(json.dumps({'property': ns['PROPERTY'], 'needs': ns['NEEDS'],
                                                      'what_it_breaks': ns['WHAT']}, indent=1) + '\n')
        return bug, 'OK ' + (bad.stdout.strip().splitlines()[-1][:150] if bad and bad.stdout.strip() else 'timeout')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as ex:
        for bug, res in ex.map(one, sys.argv[1:]):
            print(f'{bug}: {res}', flush=True)
