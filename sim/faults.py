"""
Fault injection into ordinary (single-threaded) calls.

Two seams are built on sys.settrace, so that the library needs no hooks:

* 'call': on entry to the k-th Python-level function of the numeric layer (the library's matrix package, numpy,
  scipy, sklearn) an exception is raised there: an allocation failure, a non-converging decomposition, a trapped
  floating-point error.  To the code above this is a failing numeric operation.
* 'line': at the k-th source line executed inside the library a KeyboardInterrupt is raised: the caller pressed
  Ctrl-C / a notebook cell was interrupted / a signal handler raised.

A third one stands behind sys.stdout and sys.stderr:

* 'log': the k-th write of a log message fails (closed pipe, full disk under a redirected log).

A dry run records the sequence of eligible events; the fault position is drawn from that sequence by call site first
(so that rare sites are as likely as hot loops) and stored in the scenario as an explicit event number.
"""
import os
import sys

import numpy as np

import wai.ma
import wai.common
import sklearn
import scipy

LIB = os.path.dirname(os.path.abspath(wai.ma.__file__)) + os.sep
MATRIX = os.path.join(LIB, 'core', 'matrix') + os.sep
COMMON = os.path.dirname(os.path.abspath(wai.common.__file__)) + os.sep
NUMERIC = tuple(os.path.dirname(os.path.abspath(m.__file__)) + os.sep for m in (np, sklearn, scipy)) + (MATRIX,)

EXC = {'MemoryError': MemoryError, 'LinAlgError': np.linalg.LinAlgError, 'FloatingPointError': FloatingPointError,
       'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'ValueError': ValueError}
CALL_EXC = ['MemoryError', 'LinAlgError', 'FloatingPointError']
# wrapped sklearn estimators may legitimately catch ValueError (and so LinAlgError) themselves
SKLEARN_KINDS = ('PowerTransformer', 'QuantileTransformer', 'RobustScaler')
# clean-up code does not fail: a real fault there would leak state of numpy/sklearn, not of this library
NEVER = ('__exit__', '__del__', '__enter__')


def exceptions_for(kind):
    return ['MemoryError'] if kind in SKLEARN_KINDS else CALL_EXC

PAUSED = False      # set while the harness itself calls numpy inside a traced run
_numeric_cache = {}
_lib_cache = {}


def _is_numeric(code):
    if PAUSED:
        return False
    f = code.co_filename
    r = _numeric_cache.get(f)
    if r is None:
        r = _numeric_cache[f] = f.startswith(NUMERIC)
    return r


def _is_lib(code):
    f = code.co_filename
    r = _lib_cache.get(f)
    if r is None:
        r = _lib_cache[f] = f.startswith(LIB)
    return r


def site_of(frame):
    c = frame.f_code
    b = frame.f_back
    where = c.co_name
    if b is not None:
        where += '<' + os.path.basename(b.f_code.co_filename) + ':' + b.f_code.co_name + ':' + str(b.f_lineno)
    return where


class Injector:
    """Runs a function under tracing; counts eligible events and raises at one of them."""

    def __init__(self, mode, k=None, exc='MemoryError', record=False):
        self.mode, self.k, self.exc, self.record = mode, k, exc, record
        self.n = 0
        self.sites = []
        self.fired = None
        self.look = self.start = None

    def _hit(self, frame):
        i = self.n
        self.n += 1
        if self.record:
            if self.mode == 'call':
                self.sites.append(site_of(frame))
            else:
                self.sites.append('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if self.look is not None and self.look() != self.start:
                self.sites[-1] = '!' + self.sites[-1]
        if self.k is not None and i == self.k and self.fired is None:
            self.fired = site_of(frame) if self.mode == 'call' else \
                '%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            raise EXC[self.exc]('injected')

    def _global(self, frame, event, arg):
        if event != 'call':
            return None
        code = frame.f_code
        if self.mode == 'call':
            if _is_numeric(code) and code.co_name not in NEVER:
                self._hit(frame)
            return None
        if _is_lib(code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self._hit(frame)
        return self._local

    def run(self, fn):
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)


class LogStream:
    """Stands for sys.stdout and sys.stderr; the k-th write (and those after it) fail."""

    def __init__(self, inj):
        self.inj, self.buffer, self.encoding = inj, None, 'utf-8'

    def write(self, s):
        self.inj.wrote(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class LogInjector:
    def __init__(self, k=None, record=False):
        self.k, self.record, self.n, self.sites, self.fired = k, record, 0, [], None

    def wrote(self, text):
        f = sys._getframe(2)
        while f is not None and (not _is_lib(f.f_code) or os.path.basename(f.f_code.co_filename) == '_Logger.py'):
            f = f.f_back
        site = '%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno) if f is not None else 'outside'
        if text != '\n':
            self.sites.append(site)
            i = self.n
            self.n += 1
            if self.k is not None and i == self.k:
                self.fired = site
        if self.fired:
            raise BrokenPipeError(32, 'simulated: nobody reads the log')

    def run(self, fn):
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = LogStream(self)
        try:
            return fn()
        finally:
            sys.stdout, sys.stderr = old


def injector(mode, k=None, exc='MemoryError', record=False):
    return LogInjector(k, record) if mode == 'log' else Injector(mode, k, exc, record)


def pick(rng, sites):
    """Event number: a uniformly chosen site, then a uniformly chosen occurrence of it.

    Sites marked with '!' (something was changed for the moment there) are preferred."""
    if not sites:
        return None
    by = {}
    for i, s in enumerate(sites):
        by.setdefault(s, []).append(i)
    keys = list(by)
    hot = [k for k in keys if k[0] == '!']
    if hot and rng.random() < 0.7:
        keys = hot
    return rng.choice(by[rng.choice(keys)])


def attempt(fn, fault):
    """
    Runs fn under a fault specification (or None).
    Returns (outcome, fired) with outcome ('v', value) | ('x', exception type name).
    """
    if not fault:
        try:
            return ['v', fn()], None
        except Exception as e:  # noqa
            return ['x', type(e).__name__], None
    inj = injector(fault['mode'], fault.get('k'), fault.get('exc', 'MemoryError'))
    try:
        return ['v', inj.run(fn)], inj.fired
    except (Exception, KeyboardInterrupt) as e:  # noqa
        return ['x', type(e).__name__], inj.fired


def dry(fn, mode, look=None):
    """Sequence of eligible events of fn (errors of fn itself are irrelevant here).

    look: a fingerprint; events at which it differs from the start are marked."""
    inj = injector(mode, record=True)
    if look is not None:
        inj.look, inj.start = look, look()
    try:
        inj.run(fn)
    except Exception:  # noqa
        pass
    return inj.sites
