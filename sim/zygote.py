"""
Environments: interpreters started with other settings (hash seed, optimisation, memory allocator and its fill bytes, time
zone, import order), each a server that forks one process per request.  Inside such a process every ambient source a
result could leak from - clocks, process number, system randomness, shared random streams, contents of fresh memory -
answers with values chosen by the scenario.

    python -m sim.zygote SOCKET FLAVOUR      (started by start(), never by hand)
"""
import builtins
import ctypes
import gc
import io
import os
import pickle
import platform
import random
import signal
import socket
import struct
import subprocess
import sys
import threading
import time
import traceback

from .isolate import HANG_S, Died, Hang, HarnessError

# flavour -> (environment, interpreter options, seed of the import order or None)
FLAVOURS = {
    'ref': (dict(PYTHONHASHSEED='0'), [], None),
    'h1': (dict(PYTHONHASHSEED='1', MALLOC_PERTURB_='128', PYTHONMALLOC='malloc', TZ='Asia/Tokyo', HOME='/nonexistent',
                USER='nobody', COLUMNS='20'), [], 1),
    'h2': (dict(PYTHONHASHSEED='2', PYTHONMALLOC='debug', TZ='America/New_York', LC_ALL='C', LANG='C',
                PYTHONUTF8='0'), ['-O'], 2),
    'h3': (dict(PYTHONHASHSEED='77777', MALLOC_PERTURB_='1', LANG='de_DE.UTF-8', DEBUG='1', CI='1'), ['-X', 'dev'], 3),
}
SOCKETS = {}
REF_TIME = 1.7e9


def _path(flavour):
    p = os.path.join(os.environ['SIM_SCRATCH'], 'zygote.' + flavour)
    return p if len(p) < 100 else '\0simz-%d-%s' % (os.getpid(), flavour)


def start():
    """Starts one server per flavour and waits until all of them listen."""
    procs = []
    for fl, (env, opts, order) in FLAVOURS.items():
        e = {k: v for k, v in os.environ.items() if k != 'PYTHONWARNINGS'}
        e.update(env)
        r, w = os.pipe()
        SOCKETS[fl] = _path(fl)
        e['SIM_SOCK'] = '@' + SOCKETS[fl][1:] if SOCKETS[fl][0] == '\0' else SOCKETS[fl]
        p = subprocess.Popen([sys.executable, '-W', 'ignore'] + opts + ['-m', 'sim.zygote', fl, str(w)], env=e,
                             pass_fds=[w], stdin=subprocess.DEVNULL,
                             preexec_fn=lambda: ctypes.CDLL(None).prctl(1, signal.SIGKILL))
        os.close(w)
        procs.append((fl, p, r))
    for fl, p, r in procs:
        if os.read(r, 1) != b'+':
            print('HARNESS-ERROR: environment %s did not start' % fl)
            sys.exit(3)
        os.close(r)


def _recv(s, n):
    out = b''
    while len(out) < n:
        b = s.recv(min(n - len(out), 1 << 20))
        if not b:
            return None
        out += b
    return out


def remote(flavour, fn, *args, hang_s=None):
    """fn(*args) in a new process of that environment."""
    hang_s = hang_s or HANG_S
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(hang_s + 5)
    try:
        s.connect(SOCKETS[flavour])
        req = pickle.dumps((fn.__module__, fn.__name__, args, hang_s))
        s.sendall(struct.pack('>Q', len(req)) + req)
        head = _recv(s, 8)
        data = _recv(s, struct.unpack('>Q', head)[0]) if head else None
    except socket.timeout:
        raise Hang('no result within %.0f s' % hang_s)
    finally:
        s.close()
    if data is None:
        raise Died('process ended without a result')
    kind, value = pickle.loads(data)
    if kind == 'harness':
        raise HarnessError(value)
    if kind == 'hang':
        raise Hang('no result within %.0f s' % hang_s)
    return value


# --------------------------------------------------------------------------------------------------------------------
# ambient sources
# --------------------------------------------------------------------------------------------------------------------
class Ambient:
    """What the clocks, the system's randomness and fresh memory answer in this process."""
    real = True
    now, jump, pid, entropy, poison = REF_TIME, 0.0, 4242, random.Random(0), None
    variable, cpus, host = None, 4, 'host'

    def tick(self):
        self.now += 1e-4 + (self.entropy.uniform(-self.jump, self.jump) if self.jump else 0.0)
        return self.now


A = Ambient()


def _from_library():
    from . import faults as F
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if F._is_lib(f.f_code):
            return True
        f = f.f_back
    return False


class Console(io.TextIOWrapper):
    def isatty(self):
        return True


def install():
    """Puts the switchable sources in place; called before the library is imported."""
    import datetime
    import numpy as np
    import uuid  # noqa

    def clock(name, ns, mono):
        orig = getattr(time, name)
        top = [0.0]

        def f():
            if A.real:
                return orig()
            t = A.tick()
            if mono:                     # these never run backwards, whatever the wall clock does
                top[0] = t = max(t, top[0])
            return int(t * 1e9) if ns else t
        setattr(time, name, f)
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        clock(n, False, n != 'time')
        clock(n + '_ns', True, n != 'time')
    orig_pid, orig_ur = os.getpid, os.urandom
    os.getpid = lambda: orig_pid() if A.real else A.pid

    def urandom(n):
        return orig_ur(n) if A.real else A.entropy.randbytes(n)
    os.urandom = random._urandom = urandom

    class Variables(type(os.environ)):
        """Environment variables: any the library asks for exists, if the scenario says so."""

        def __getitem__(self, key):
            try:
                return super().__getitem__(key)
            except KeyError:
                if A.variable is not None and _from_library():
                    return A.variable
                raise
    os.environ.__class__ = Variables
    cpus, aff, host, node = os.cpu_count, os.sched_getaffinity, socket.gethostname, platform.node
    os.cpu_count = lambda: cpus() if A.real else A.cpus
    os.sched_getaffinity = lambda pid: aff(pid) if A.real else set(range(A.cpus))
    socket.gethostname = lambda: host() if A.real else A.host
    platform.node = lambda: node() if A.real else A.host

    class FakeDatetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())
    datetime.datetime = FakeDatetime

    def fresh(orig):
        def f(*args, **kw):
            a = orig(*args, **kw)
            if A.poison is not None and isinstance(a, np.ndarray) and a.dtype == np.float64:
                a[...] = A.poison
            return a
        return f
    np.empty = fresh(np.empty)
    np.empty_like = fresh(np.empty_like)


def enter(env):
    """Applies an environment to this process; called in the forked process."""
    import numpy as np
    import warnings
    A.real = False
    seed = env.get('seed', 0)
    A.entropy = random.Random(1000 + seed)
    A.now = REF_TIME + (seed * 8640.7 if env.get('clock') else 0.0)
    A.jump = 3600.0 if env.get('clock') == 'jumps' else 0.0
    A.pid = 4242 + seed
    A.cpus, A.host = (seed % 9 + 1, 'host%d.local' % seed) if seed else (4, 'host')
    A.variable = (env.get('vars') or {}).get('*')
    A.poison = {None: None, 'nan': float('nan'), 'huge': 1e300, 'zero': 0.0, 'one': 1.0}[env.get('poison')]
    if os.getpid() != A.pid or not 0 <= time.time() - REF_TIME < 1e11 or np.empty(1)[0] != (A.poison or np.empty(1)[0]) \
            and A.poison == A.poison:
        raise HarnessError('the ambient sources of this process are not the simulated ones')
    random.seed(seed)
    np.random.seed(seed)
    for _ in range(seed % 7):
        np.random.standard_normal()
        random.random()
    if env.get('err'):
        np.seterr(all=env['err'])
    if env.get('print'):
        np.set_printoptions(precision=2, threshold=3, edgeitems=1, linewidth=20, suppress=True)
    if env.get('warn'):
        warnings.simplefilter(env['warn'])
    if env.get('gc') == 'eager':
        gc.enable()
        gc.set_threshold(1, 1, 1)
    if env.get('junk'):
        # fill and free memory, so that new objects meet other addresses and other left-overs
        junk = [np.full(seed % 50 + j, 3e7 + j) for j in range(200)]
        del junk[::2]
        builtins._sim_junk = junk
    if env.get('nocwd'):
        d = os.path.join(os.environ['SIM_SCRATCH'], 'gone-%d' % os.stat('/proc/self').st_ino)
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    if env.get('noconsole') == 'tty':
        sys.stdout, sys.stderr = Console(io.BytesIO(), 'ascii'), Console(io.BytesIO(), 'ascii')
    elif env.get('noconsole'):
        sys.stdout = sys.stderr = None
    for k, v in (env.get('vars') or {}).items():
        if k != '*':
            os.environ[k] = v


def serve_one(conn):
    req = _recv(conn, struct.unpack('>Q', _recv(conn, 8))[0])
    module, name, args, hang_s = pickle.loads(req)
    import importlib
    fn = getattr(importlib.import_module(module), name)

    def on_alarm(*_):
        data = pickle.dumps(('hang', None))
        conn.sendall(struct.pack('>Q', len(data)) + data)
        os._exit(0)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, hang_s)
    try:
        payload = ('ok', fn(*args))
    except BaseException:  # noqa
        payload = ('harness', traceback.format_exc())
    signal.setitimer(signal.ITIMER_REAL, 0)
    data = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
    conn.sendall(struct.pack('>Q', len(data)) + data)


def imports(order):
    """The library's modules, in this environment's order."""
    import importlib
    import pkgutil
    if order is None:
        return
    import wai.ma
    names = [m.name for m in pkgutil.walk_packages(wai.ma.__path__, 'wai.ma.') if '._' not in m.name]
    random.Random(order).shuffle(names)
    for n in names:
        importlib.import_module(n)


def main():
    flavour, ready = sys.argv[1], int(sys.argv[2])
    from . import main as MAIN
    install()
    MAIN.third_party()
    # packages of the library in another order than the check imports them
    imports(FLAVOURS[flavour][2])
    MAIN.check_import()
    from . import c13, c14  # noqa
    addr = os.environ['SIM_SOCK']
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind('\0' + addr[1:] if addr[0] == '@' else addr)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    parent = os.getppid()
    gc.disable()
    os.write(ready, b'+')
    os.close(ready)
    while os.getppid() == parent:
        conn, _ = srv.accept()
        pid = os.fork()
        if pid == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                srv.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                if not os.environ.get('SIM_DEBUG'):
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                serve_one(conn)
            finally:
                os._exit(0)
        conn.close()


if __name__ == '__main__':
    # the module under its own name: callers switch the sources of sim.zygote, not of __main__
    import importlib
    importlib.import_module('sim.zygote').main()
