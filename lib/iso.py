"""Run a function in a forked child: whatever it caches or changes in this process's copy dies with the child."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

from lib.core import Violation, HarnessError


def isolated(fn, *args, timeout=240.):
    """fn(*args) in a child process.  Exceptions come back as exceptions (Violation stays Violation)."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except Violation as e:
                out = ('violation', (str(e), getattr(e, 'key', None)))
            except HarnessError as e:
                out = ('harness', str(e))
            except BaseException as e:  # noqa
                out = ('exception', (type(e).__name__, str(e)[:400], traceback.format_exc()[-2500:], frames(e)))
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    t0 = time.time()
    try:
        while True:
            left = timeout - (time.time() - t0)
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError(f'a child took more than {timeout} s')
            ready, _, _ = select.select([r], [], [], min(left, 5.))
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise HarnessError('a child ended without an answer')
    kind, val = pickle.loads(b''.join(buf))
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(val[0], val[1])
    if kind == 'harness':
        raise HarnessError(val)
    name, msg, trace, inrepo = val
    if inrepo:
        raise Violation(f'unexpected {name} on a valid input: {msg}\n{trace}')
    raise HarnessError(f'{name}: {msg}\n{trace}')


def frames(e):
    """Was the exception raised in (or below) the code under test?"""
    from lib import boot
    root = os.path.realpath(boot.REPO) + os.sep
    here = os.path.realpath(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + os.sep
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(root):
            return True
        if fn.startswith(here):
            return False
    return False
