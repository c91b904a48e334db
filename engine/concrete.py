"""Runs harnesses on the real build, each case in its own child process."""
import json
import os
import signal
import sys
import time
import traceback
import warnings


def one(check, case, asan):
    from engine.harness import ConcE, CheckFailed, AssumeFailed
    warnings.simplefilter('ignore')
    h = [x for x in check.HARNESSES if x.name == case['harness']][0]
    E = ConcE(case['env'], case['choices'])
    try:
        h.fn(E, **case['params'])
        return ['ok', '', E.obs]
    except CheckFailed as e:
        return ['fail', str(e), E.obs]
    except AssumeFailed as e:
        return ['assume', str(e), E.obs]
    except Exception as e:
        return ['exc', '%s: %s' % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-600:], E.obs]
    finally:
        E.cleanup()


def main():
    spec = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import importlib
    check = importlib.import_module('checks.' + spec['pid'].lower())
    import pyscal.core
    assert pyscal.core.__file__.startswith('/tmp/pyscal_real_') or 'pyscal_real_' in pyscal.core.__file__, pyscal.core.__file__
    res = []
    for case in spec['cases']:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                signal.alarm(int(spec['timeout']))
                out = one(check, case, spec['asan'])
            except BaseException as e:
                out = ['error', traceback.format_exc()[-600:], []]
            data = json.dumps(out, default=str).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            res.append(['crash', 'did not terminate within %ss' % spec['timeout'], []])
        elif os.WIFSIGNALED(st):
            res.append(['crash', 'killed by signal %d' % os.WTERMSIG(st), []])
        elif os.WEXITSTATUS(st) == 77:
            res.append(['crash', 'sanitizer report', []])
        elif not data:
            res.append(['crash', 'exit status %d without a result' % os.WEXITSTATUS(st), []])
        else:
            res.append(json.loads(data))
        json.dump(res, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
