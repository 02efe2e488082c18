"""
Deterministic thread scheduler.

Real threads, of which exactly one runs at a time.  Every source line (or byte-code instruction) executed inside the
library is a yield point; a global counter numbers them.  The schedule is an explicit list of [step, thread]: when the
counter reaches the step, control passes to that thread; otherwise a thread runs until it ends or blocks, and then the
lowest-numbered runnable thread continues.  The same list gives the same execution.
"""
import os
import sys
import _thread
import threading

from . import faults as F
from . import simlock

MAX_STEPS = 3_000_000


class Deadlock(BaseException):
    pass


class Stuck(BaseException):
    pass


class Task:
    def __init__(self, tid, body, fault):
        self.tid, self.body, self.fault = tid, body, fault
        self.gate = simlock.real_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None       # SimLock
        self.out = None
        self.fired = None
        self.n_line = self.n_call = 0
        self.ident = None


class Scheduler:
    def __init__(self, bodies, schedule, granularity='line', faults=None, record=False):
        faults = faults or {}
        self.tasks = [Task(i, b, faults.get(i)) for i, b in enumerate(bodies)]
        self.schedule = list(schedule)
        self.pos = 0
        self.opcode = granularity == 'opcode'
        self.step = 0
        self.current = None
        self.record = record
        self.sites = []           # (tid, site) per step when recording
        self.look = None          # when recording: fingerprint of what the threads share
        self.seen = None
        self.hot = []             # steps at which it had changed
        self.trace = []           # switches that took place: (step, from, to, site)
        self.main = simlock.real_lock()
        self.main.acquire()
        self.deadlock = None
        self.idents = {}

    # -- called from the tasks --------------------------------------------------------------------------------------
    def owns_current(self):
        return _thread.get_ident() in self.idents

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def _pass_to(self, other, me=None):
        self.current = other
        other.gate.release()
        if me is not None:
            me.gate.acquire()
            if self.deadlock and me.waiting is None and me.dead:
                raise Deadlock()

    def point(self, site=None):
        """A yield point of the running task."""
        me = self.current
        s = self.step
        self.step += 1
        if self.record:
            self.sites.append((me.tid, site() if callable(site) else site))
            if self.look is not None:
                now = self.look()
                if now != self.seen and self.seen is not None:
                    self.hot.append(s)
                self.seen = now
        if s > MAX_STEPS:
            raise Stuck()
        if self.pos < len(self.schedule) and self.schedule[self.pos][0] <= s:
            target = self.tasks[self.schedule[self.pos][1] % len(self.tasks)]
            self.pos += 1
            if target is not me and not target.done and target.waiting is None:
                self.trace.append((s, me.tid, target.tid, site() if callable(site) else site))
                me.dead = False
                self._pass_to(target, me)

    def block(self, lock, timed):
        """The running task waits for a lock; False if that wait timed out."""
        me = self.current
        others = [t for t in self._runnable() if t is not me]
        if not others:
            if timed:
                return False
            self.deadlock = 'all threads wait for locks'
            raise Deadlock()
        me.waiting = lock
        me.dead = False
        self._pass_to(others[0], me)
        if me.dead:
            raise Deadlock()
        return True

    def unblock(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    # -- tracing ----------------------------------------------------------------------------------------------------
    def _tracer(self, task):
        fault = task.fault
        call_fault = fault if fault and fault['mode'] == 'call' else None
        line_fault = fault if fault and fault['mode'] == 'line' else None
        opcode = self.opcode

        def local(frame, event, arg):
            if event == ('opcode' if opcode else 'line'):
                self.point(lambda: '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if event == 'line' and line_fault is not None:
                i = task.n_line
                task.n_line += 1
                if i == line_fault['k'] and task.fired is None:
                    task.fired = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise F.EXC[line_fault['exc']]('injected')
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            if call_fault is not None and F._is_numeric(code) and code.co_name not in F.NEVER:
                i = task.n_call
                task.n_call += 1
                if i == call_fault['k'] and task.fired is None:
                    task.fired = F.site_of(frame)
                    raise F.EXC[call_fault['exc']]('injected')
            if F._is_lib(code):
                if opcode:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def _thread(self, task):
        task.gate.acquire()
        task.ident = _thread.get_ident()
        self.idents[task.ident] = task
        task.dead = False
        sys.settrace(self._tracer(task))
        try:
            task.out = ['v', task.body(self)]
        except Deadlock:
            task.out = ['dead', self.deadlock]
        except Stuck:
            task.out = ['dead', 'no end after %d steps' % MAX_STEPS]
        except (Exception, KeyboardInterrupt) as e:  # noqa
            task.out = ['x', type(e).__name__]
        finally:
            sys.settrace(None)
        task.done = True
        del self.idents[task.ident]
        # a task that dies with a lock held keeps it, as in reality
        nxt = self._runnable()
        if nxt:
            self._pass_to(nxt[0])
            return
        left = [t for t in self.tasks if not t.done]
        if left:
            self.deadlock = 'threads %r wait for a lock nobody will release' % [t.tid for t in left]
            left[0].waiting = None
            left[0].dead = True
            self._pass_to(left[0])
            return
        self.main.release()

    def run(self):
        for t in self.tasks:
            t.dead = False
            threading.Thread(target=self._thread, args=(t,), daemon=True).start()
        simlock.ACTIVE = self
        try:
            self.current = self.tasks[0]
            self.tasks[0].gate.release()
            self.main.acquire()
        finally:
            simlock.ACTIVE = None
        return [t.out for t in self.tasks]


# ---- schedules ----------------------------------------------------------------------------------------------------
def draw(rng, sites, threads, hot=()):
    """An explicit schedule for a run whose sequential execution produced these (thread, site) steps.

    hot: steps right after something shared was written."""
    n = max(len(sites), 1)
    if hot and rng.random() < 0.6:
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice(hot)
            t = sites[s][0]
            out.append([s, rng.choice([x for x in range(threads) if x != t])])
            if rng.random() < 0.5:
                # back when the other one has written, or at any time
                later = [h for h in hot if sites[h][0] != t]
                out.append([s + rng.choice([1, 2, 5, 20, 100, n // 4 + 1] + [abs(h - s) for h in later[:4]]), t])
        return sorted(out)
    kind = rng.choice(['walk', 'pct', 'site', 'site', 'site2', 'robin'])
    if kind == 'walk':
        p = rng.choice([0.01, 0.05, 0.2, 0.5])
        out, s = [], 0
        while s < n and len(out) < 600:
            s += 1 + int(rng.expovariate(p)) if p < 0.5 else rng.choice([1, 2])
            out.append([s, rng.randrange(threads)])
        return out
    if kind == 'pct':
        return sorted([rng.randrange(n), rng.randrange(threads)] for _ in range(rng.choice([1, 2, 3, 5])))
    if kind == 'robin':
        q = rng.choice([1, 2, 3, 7, 20])
        return [[s, (j + 1) % threads] for j, s in enumerate(range(q, min(n, 600 * q), q))]
    # suspend one thread at a chosen site, let another run (to its end or for a while), then return
    out = []
    by = {}
    for s, (t, site) in enumerate(sites):
        by.setdefault((t, site), []).append(s)
    keys = sorted(by, key=str)
    for _ in range(1 if kind == 'site' else 2):
        t, site = rng.choice(keys)
        s = rng.choice(by[(t, site)])
        other = rng.choice([x for x in range(threads) if x != t])
        out.append([s, other])
        if rng.random() < 0.6:
            out.append([s + rng.choice([1, 2, 5, 20, 100, n // 4 + 1]), t])
    return sorted(out)
