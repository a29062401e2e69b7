""" PyPy side of the harness: executes one generated case at a time against the code in /repo and judges it.

Protocol: one JSON request per line on stdin ({"prop": id, "case": {...}}), one JSON verdict per line on stdout.
"""
import faulthandler
import importlib
import json
import os
import resource
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def from_repo(tb):
    """ True if the exception was raised by (or on behalf of) the code under test. """
    inside = False
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(REPO, 'glompo') + os.sep):
            inside = True
        tb = tb.tb_next
    return inside


def main():
    out_fd = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    os.dup2(2, 1)
    out = os.fdopen(out_fd, 'w', buffering=1)
    os.set_inheritable(out_fd, False)
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536), hard))
    faulthandler.enable()
    stacks = os.environ.get('VERIF_STACKS')
    if stacks:
        faulthandler.register(signal.SIGUSR1, file=open(stacks, 'w'), all_threads=True)

    from verdict import Violation, Known
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = importlib.import_module('props.' + req['prop'].lower())
            v = mod.run(req['case']) or {}
            v.setdefault('ok', True)
        except Known as e:
            v = {'ok': True, 'known': e.key, 'msg': str(e), 'nt': True, 'tags': ['known:' + e.key]}
        except Violation as e:
            v = {'ok': False, 'msg': str(e), 'nt': True}
        except BaseException as e:  # noqa
            text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if from_repo(e.__traceback__) and isinstance(e, Exception):
                v = {'ok': False, 'nt': True, 'msg': f'unexpected {type(e).__name__}: {e}', 'trace': text}
            else:
                v = {'ok': None, 'harness': text}
        out.write(json.dumps(v, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
