"""
Process isolation: every simulated run and every oracle computation executes in its own process, forked from a
parent that has imported the library but never called it.  A run is therefore a pure function of its scenario.
"""
import ctypes
import gc
import os
import pickle
import select
import signal
import sys
import time
import traceback

HANG_S = float(os.environ.get('SIM_HANG_S', '45'))


class HarnessError(Exception):
    """The machinery (not the library) failed."""


class Hang(Exception):
    """A simulated run did not finish."""


class Died(Exception):
    """A simulated run's process died (segfault, out of memory ...)."""


def isolated(fn, *args, hang_s=None):
    """Runs fn(*args) in a forked process and returns its (pickled) result."""
    hang_s = hang_s or HANG_S
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # do not outlive the worker
            gc.disable()
            for s in (signal.SIGINT, signal.SIGTERM):
                signal.signal(s, signal.SIG_DFL)
            null = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            try:
                payload = ('ok', fn(*args))
            except BaseException:  # noqa
                payload = ('harness', traceback.format_exc())
            sys.settrace(None)
            data = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + hang_s
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        raise Hang('no result within %.0f s' % hang_s)
    data = b''.join(chunks)
    if not data:
        raise Died('process ended with status %r' % status)
    kind, value = pickle.loads(data)
    if kind == 'harness':
        raise HarnessError(value)
    return value
