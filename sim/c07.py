"""C07: independent objects and the caller's process state are not disturbed."""
import builtins
import decimal
import faulthandler
import gc
import io
import locale
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import sklearn

from . import catalog as C
from . import faults as F
from . import matops as MO
from . import sched as S
from . import watch as W
from .base import *


# ---- process-wide state -------------------------------------------------------------------------------------------
def settings():
    """Everything process-wide a numeric library could disturb, except the random streams."""
    return dict(geterr=np.geterr(), errcall=repr(np.geterrcall()), bufsize=np.getbufsize(),
                print={k: repr(v) for k, v in np.get_printoptions().items()}, cwd=os.getcwd(),
                filters=len(warnings.filters), filters_first=repr(warnings.filters[:3]),
                showwarning=repr(warnings.showwarning), locale=repr(locale.setlocale(locale.LC_ALL)),
                recursion=sys.getrecursionlimit(), stdout=id(sys.stdout), stderr=id(sys.stderr),
                environ=sorted(os.environ.items()), decimal=repr(decimal.getcontext()),
                sigint=repr(signal.getsignal(signal.SIGINT)), umask=_umask(), excepthook=repr(sys.excepthook),
                switch=sys.getswitchinterval(), open=id(open), path=list(sys.path), hooks=repr(sys.displayhook),
                gc=[gc.isenabled(), gc.get_threshold(), gc.get_debug()], sklearn=sorted(sklearn.get_config().items()),
                logging=[logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                         repr(logging.getLoggerClass()), logging.raiseExceptions],
                tempdir=tempfile.tempdir, threads=threading.stack_size(), digits=sys.get_int_max_str_digits(),
                signals=[repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
                timers=[signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_PROF)],
                limits=[resource.getrlimit(r) for r in LIMITS], nice=os.getpriority(os.PRIO_PROCESS, 0),
                affinity=sorted(os.sched_getaffinity(0)), callbacks=len(gc.callbacks), fault=faulthandler.is_enabled(),
                excepthooks=[repr(threading.excepthook), repr(sys.unraisablehook)], builtins=sorted(vars(builtins)),
                stdin=id(sys.stdin), traceback=getattr(sys, 'tracebacklimit', None), format=repr(warnings.formatwarning),
                last=repr(logging.lastResort), encodings=[sys.getdefaultencoding(), sys.getfilesystemencoding()],
                timezone=time.tzname, start=multiprocessing.get_start_method(True), socket=socket.getdefaulttimeout())


LIMITS = (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_CPU)


def untraced(fn, *args):
    """The harness's own calls are no place for faults or switches."""
    F.PAUSED = True
    try:
        return fn(*args)
    finally:
        F.PAUSED = False


def own_settings():
    """What numpy and decimal keep per thread."""
    return dict(geterr=np.geterr(), errcall=repr(np.geterrcall()), bufsize=np.getbufsize(),
                print={k: repr(v) for k, v in np.get_printoptions().items()}, decimal=repr(decimal.getcontext()))


def apply_own(scn):
    s = scn.get('settings') or {}
    if s.get('err'):
        np.seterr(**s['err'])
    if s.get('precision'):
        np.set_printoptions(precision=s['precision'])


def _umask():
    with open('/proc/self/status') as f:
        return [l for l in f if l.startswith('Umask')]


def streams():
    a = np.random.get_state()
    return [digest([a[0], a[1].tobytes(), a[2:]]), digest(random.getstate())]


def rooted(fn):
    """Runs fn in a directory of its own if the threads work with files."""
    def run(scn, *args):
        global START
        if not any(o.get('op') == 'file' for t in scn['threads'] if isinstance(t, list) for o in t):
            return fn(scn, *args)
        START = tempfile.mkdtemp(prefix='c07', dir=os.environ.get('SIM_SCRATCH'))
        try:
            os.chdir(START)
            return fn(scn, *args)
        finally:
            os.chdir('/')
            shutil.rmtree(START, ignore_errors=True)
    return run


START = None
PER_THREAD = ('geterr', 'errcall', 'bufsize', 'decimal')


def prepare_process(scn):
    """The caller's own settings, which the library has to leave alone."""
    C.L.load()
    np.random.seed(scn['caller'])
    random.seed(scn['caller'])
    s = scn.get('settings') or {}
    apply_own(scn)
    if s.get('warn'):
        warnings.simplefilter(s['warn'])
    sys.stdout.flush()


# ---- what a thread does -------------------------------------------------------------------------------------------
def made(n, p):
    """New matrices from the factory and the helper functions; their owner may edit them."""
    f = C.L.factory
    z = C.M(np.zeros((n, p)))
    return [f.eye(n), f.eye(n, p), f.zeros(n), f.zeros(n, p), f.filled(n, p, 2.0), f.eye_like(z), f.zeros_like(z),
            f.filled_like(z, 1.0), f.from_row([1.0] * p), f.from_column([1.0] * n), f.range(n, p, 1),
            f.rand(n, p, 3), f.randn(n, p, 3), f.diag(f.from_row([1.0] * p))]


def act(op, ctx):
    o = op['op']
    kind = op.get('kind')
    if o == 'use':
        obj = C.create(kind, op['params'])
        data = C.make_data(kind, op['data'])
        res = C.prepare(kind, obj, data)
        return [res, C.probe(kind, obj, data, C.read_ops(kind))]
    if o == 'rand':
        return [C.arr(C.L.factory.rand(op['r'], op['c'], op['seed'])), C.arr(C.L.factory.rand(op['r'], op['c'])),
                C.arr(C.L.factory.rand_like(C.M(np.zeros((op['c'], op['r']))), op['seed']))]
    if o == 'randn':
        return [C.arr(C.L.factory.randn(op['r'], op['c'], op['seed'])), C.arr(C.L.factory.randn(op['r'], op['c'])),
                C.arr(C.L.factory.randn_like(C.M(np.zeros((op['c'], op['r']))), op['seed']))]
    if o == 'factory':
        out = []
        for _ in range(2):
            ms = made(op['n'], op['p'])
            out.append([C.arr(m) for m in ms])
            for m in ms:
                m.set(0, 0, op['v'])
        return out
    if o == 'matrix':
        m = {k: C.M(v) for k, v in MO.operands(op['data']).items()}
        return [MO.obs(MO.READS[n](m)) for n in op['reads']]
    if o == 'text':
        m = C.M(MO.operands(op['data'])['A'])
        s = io.StringIO()
        C.L.helper.write(m, s, op['header'], op['sep'], op['dec'])
        s.seek(0)
        return [s.getvalue(), C.arr(C.L.helper.read(s, op['header'], op['sep']))]
    if o == 'file':
        path = os.path.join(START, op['path']) if op['abs'] else op['path']
        obj = C.M(MO.operands(op['data'])['A'].astype(float))
        obj.save_state(path)
        with open(path, 'rb') as f:
            out = [f.read()]
        C.L.helper.write(obj, path + '.csv', op['header'], op['sep'], op['dec'])
        with open(path + '.csv', 'rb') as f:
            out.append(f.read())
        return out + [C.arr(C.L.helper.read(path + '.csv', op['header'], op['sep']))]
    raise ValueError(o)


def lib_body(ops, tid, scn):
    def run(s):
        outs = []
        untraced(apply_own, scn)
        own = untraced(own_settings)
        for op in ops:
            before = s.tasks[tid].fired if s else None
            try:
                out = ['v', act(op, None)]
            except (Exception, KeyboardInterrupt) as e:  # noqa
                out = ['x', type(e).__name__]
            now = untraced(own_settings)
            outs.append([out, s is not None and s.tasks[tid].fired is not None and before is None,
                         sorted(k for k in own if own[k] != now[k])])
        return outs
    return run


def caller_body(n):
    """The application itself, drawing random numbers while the library works in other threads."""
    def run(s):
        out, first = [], untraced(settings)
        for i in range(n):
            if s is not None:
                s.point('caller:%d' % i)
            now = untraced(settings)
            out.append(sorted(k for k in now if k not in PER_THREAD and now[k] != first[k]))
            out.append([float(np.random.random_sample()), random.random(), float(np.random.normal())])
        return [[['v', out], False, []]]
    return run


def bodies(scn):
    return [caller_body(t['draws']) if isinstance(t, dict) else lib_body(t, i, scn) for i, t in enumerate(scn['threads'])]


@rooted
def _run(scn, record=False):
    prepare_process(scn)
    a = settings()
    draws = any(isinstance(t, dict) for t in scn['threads'])
    b = streams()
    fs = {scn['fault']['thread']: scn['fault']} if scn.get('fault') and not record else {}
    s = S.Scheduler(bodies(scn), scn.get('sched') or [], scn.get('gran', 'line'), fs, record)
    if record:
        dicts = W.spaces() if record == 'all' else []
        s.look = (lambda: [W.settings(), W.value(dicts, 5)]) if dicts else W.settings
        before = W.shared()
        s.run()
        # what the caller itself writes is no place to look at
        hot = [h for h in s.hot if not str(s.sites[h - 1][1]).startswith('caller')]
        return s.sites, hot, before != W.shared()
    outs = s.run()
    a2 = settings()
    changed = sorted(k for k in a if a[k] != a2[k])
    return dict(outs=outs, steps=s.step, trace=s.trace, dead=s.deadlock, fired=[t.fired for t in s.tasks],
                changed=changed, streams=None if draws else (streams() != b))


@rooted
def _ref(scn, tid):
    """One thread's work in a process of its own, without the others (and with another random state around it)."""
    prepare_process(scn if isinstance(scn['threads'][tid], dict) else dict(scn, caller=scn['caller'] + 1))
    return [o[0] for o in bodies(scn)[tid](None)]


@rooted
def _dry_fault(scn):
    prepare_process(scn)
    f = scn['fault']
    return F.dry(lambda: bodies(scn)[f['thread']](None), f['mode'], W.settings)


def rand_op(rng):
    x = rng.random()
    if x < 0.6:
        kind = rng.choice(C.ALL_KINDS)
        params = rand_params(rng, kind, rng.choice([0.0, 0.4]))
        if kind == 'MultiFilter':
            params = dict(pipe=rng.randrange(len(C.PIPES)))
        return dict(op='use', kind=kind, params=params, data=rand_data(rng, kind, rng.choice(
            ['', '', '', '', 'const', 'nan', 'outlier', 'rows'])))
    if x < 0.75:
        return dict(op=rng.choice(['rand', 'randn']), r=rng.randint(1, 4), c=rng.randint(1, 4),
                    seed=rng.choice([0, 1, 2, 5, 42, 99999]))
    if x < 0.79:
        return dict(op='factory', n=rng.randint(2, 4), p=rng.randint(2, 4), v=rng.choice([7.5, -3.0]))
    d = dict(seed=rng.randrange(10 ** 6), n=rng.randint(2, 5), p=rng.randint(2, 4), v=rng.choice(['', 'spd', 'int']))
    if x < 0.9:
        return dict(op='matrix', data=d, reads=['str'] * (rng.random() < 0.2) + rng.sample(sorted(r for r in MO.READS if r not in (
            'reduce', 'h.row_norms', 'h.euclidean', 'eq')), 3))
    if x < 0.95:
        return dict(op='file', data=d, path='%sf%06d' % (rng.choice(['', '', 'd/', 'd%d/' % rng.randrange(9)]),
                                                         rng.randrange(10 ** 6)), abs=rng.random() < 0.5,
                    header=rng.random() < 0.5, sep=rng.choice([',', ';']), dec=rng.choice([-1, 3, 6]))
    return dict(op='text', data=d, header=rng.random() < 0.5, sep=rng.choice([',', ';', '\t']),
                dec=rng.choice([-1, 3, 6]))


# ---- several objects of one kind, used in turn ---------------------------------------------------------------------
def club_step(kind, objs, o, step):
    """One step of one object; every object sees only its own steps."""
    op = step['op']
    if op == 'create':
        objs[o] = [C.create(kind, step['params']), None]
        return None
    obj, data = objs[o]
    if op == 'set':
        C.set_param(obj, step['name'], step['value'])
        return C.read_params(kind, obj)
    if op == 'prepare':
        objs[o][1] = data = C.make_data(kind, step['data'])
        return C.prepare(kind, obj, data)
    if op == 'reset':
        return obj.reset()
    if op == 'reads':
        return C.probe(kind, obj, data, C.read_ops(kind))
    return C.read(kind, obj, op, C.make_data(kind, step['data']))


def club_run(scn, only=None):
    C.L.load()
    C.reuse(scn.get('reuse'))
    objs, outs = {}, []
    for s in scn['club']:
        if only is None or s['o'] == only:
            outs.append(C.outcome(lambda: club_step(scn['kind'], objs, s['o'], s)))
    return outs


def near_value(rng, vals, v):
    """Another value, preferably of the same type: what a careless cache key would confuse."""
    vals = [x for x in vals if x != v]
    return rng.choice(vals) if vals else v


def club(rng):
    kind = rng.choice(C.ALL_KINDS)
    n = rng.choice([2, 2, 3, 4])
    plans = []
    base = rand_params(rng, kind, 0.5)
    data = rand_data(rng, kind, rng.choice(['', '', '', '', 'const', 'rows']))
    for o in range(n):
        params = dict(base)
        how = rng.choice(['same', 'one', 'swap', 'free'])
        names = sorted(C.params_of(kind))
        if kind == 'MultiFilter':
            params = dict(pipe=rng.randrange(len(C.PIPES)))
        elif o and names and how == 'one':
            x = rng.choice(names)
            params[x] = near_value(rng, C.params_of(kind)[x], params.get(x))
        elif o and len(names) > 1 and how == 'swap':
            # two parameters exchange their values where both allow it
            pairs = [(a, b) for a in names for b in names if a < b and C.params_of(kind)[a] == C.params_of(kind)[b]]
            if pairs:
                a, b = rng.choice(pairs)
                va, vb = rng.sample(C.params_of(kind)[a], 2)
                for q in plans:
                    if q[0]['op'] == 'create' and len(plans) == 1:
                        q[0]['params'].update({a: va, b: vb})
                params.update({a: vb, b: va})
        elif o and how == 'free':
            params = rand_params(rng, kind)
        d = dict(data)
        if rng.random() < 0.7:
            d['seed'] = rng.randrange(10 ** 6)
        if rng.random() < 0.2:
            d = rand_data(rng, kind)
        steps = [dict(op='create', params=params)]
        if rng.random() < 0.85:
            steps.append(dict(op='prepare', data=d))
        reads = C.read_ops(kind)
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.4 and steps[-1]['op'] != 'create':
                steps.append(dict(op='reads'))
            elif x < 0.65:
                steps.append(dict(op=rng.choice(reads), data=dict(use_data(rng, kind, d))))
            elif x < 0.8 and names and kind not in ('MultiFilter', 'MSC'):
                p = rng.choice(names)
                steps.append(dict(op='set', name=p, value=rng.choice(C.params_of(kind)[p])))
                if rng.random() < 0.7:
                    steps.append(dict(op='prepare', data=d))
            elif x < 0.9 and kind not in C.KERNEL_KINDS:
                steps.append(dict(op='prepare', data=dict(d, seed=rng.randrange(10 ** 6))))
            elif kind in C.ALG_KINDS:
                steps += [dict(op='reset'), dict(op='prepare', data=d)]
        steps.append(dict(op='reads') if any(x['op'] == 'prepare' for x in steps) else
                     dict(op=rng.choice(reads), data=d))
        plans.append(steps)
    out = []
    queue = [[dict(s, o=o) for s in p] for o, p in enumerate(plans)]
    while any(queue):
        q = rng.choice([q for q in queue if q])
        out += [q.pop(0) for _ in range(min(len(q), rng.choice([1, 1, 2, 9])))]
    scn = dict(kind=kind, club=out)
    if rng.random() < 0.3:
        scn['reuse'] = 1
    return scn


class C07(Prop):
    id = 'C07'
    traits = ('scale', 'rows', 'used', 'square', 'values')
    quick_runs = 4000
    thorough_runs = 50000
    time_unit = 'scheduling points (source lines or byte-code instructions inside the library)'
    rule = ('one run = 1-3 threads, each working with objects of its own (and possibly the caller drawing random '
            'numbers itself) under one explicit schedule, sometimes with a failing call in one of them; every result '
            'is compared with the thread alone in a new process; random streams and process-wide settings are '
            'compared before and after; two runs in five instead use two to four objects of one kind, with similar '
            'parameters and data, in turn in one thread, each compared with itself alone in a new process; '
            'non-trivial = threads or objects took turns or a fault fired')
    distinct_measure = 'distinct (work per thread, sequence of switches with their source sites, fault sites)'
    stubs = ['thread scheduling (explicit schedule, one thread runs at a time)', 'threading.Lock/RLock (scheduled)']

    def scenario(self, rng, i, tier):
        if i % 5 in (1, 3):
            return club(rng)
        n = rng.choice([1, 1, 2, 2, 2, 3])
        threads = [[rand_op(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        if n > 1 and rng.random() < 0.45:
            # the same class on different data: shared class or module state shows
            k = [o for o in threads[0] if o['op'] == 'use']
            if k:
                kind = k[0]['kind']
                threads[1] = [dict(k[0], data=rand_data(rng, kind), params=k[0]['params'] if rng.random() < 0.5 or
                                   kind == 'MultiFilter' else rand_params(rng, kind))]
            else:
                o = threads[0][0]
                threads[1] = [dict(o, seed=7) if 'seed' in o else dict(o, v=1.5) if o['op'] == 'factory' else
                              rand_op(rng)]
        if rng.random() < 0.3 and n < 3:
            threads.append(dict(draws=rng.choice([3, 8, 20])))
        s = {}
        if rng.random() < 0.3:
            s['err'] = {k: rng.choice(['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')}
        if rng.random() < 0.2:
            s['precision'] = rng.choice([2, 3, 12])
        if rng.random() < 0.2:
            s['warn'] = rng.choice(['ignore', 'once', 'always'])
        scn = dict(kind='+'.join(sorted({o.get('kind', o['op']) for t in threads if isinstance(t, list) for o in t})),
                   threads=threads, caller=rng.randrange(1000), settings=s,
                   gran='opcode' if rng.random() < 0.15 else 'line')
        if rng.random() < (0.8 if n == 1 else 0.4):
            kinds = [o.get('kind', '') for o in threads[0]] if isinstance(threads[0], list) else ['']
            scn['fault'] = dict(rand_fault(rng, next((k for k in kinds if k in F.SKLEARN_KINDS), '')), thread=0)
        return scn

    def resolve(self, scn, rng):
        if 'club' in scn:
            return scn
        if scn.get('fault'):
            scn['gran'] = 'line'
        if scn.get('fault'):
            f = pick_fault(rng, scn['fault'], _dry_fault, scn)
            if f:
                scn['fault'] = f
            else:
                del scn['fault']
        if len(scn['threads']) > 1:
            try:
                sites, hot, more = isolated(_run, scn, 'own')
                if more and len(sites) < 20000:
                    sites, hot, _ = isolated(_run, scn, 'all')
            except Exception:  # noqa
                sites = hot = None
            scn['sched'] = S.draw(rng, sites, len(scn['threads']), hot) if sites else []
        return scn

    def execute_club(self, scn):
        kind, steps = scn['kind'], scn['club']
        got = isolated(club_run, scn)
        v, probes = None, {}
        for o in sorted({s['o'] for s in steps}):
            want = isolated(club_run, scn, o)
            mine = [j for j, s in enumerate(steps) if s['o'] == o]
            for j, w in zip(mine, want):
                if v is None and not C.same(got[j], w):
                    v = viol('disturbed', 'C07:%s:disturbed' % kind, '%s: %s of object %d gave %s, without the other '
                             'objects %s; steps %s' % (kind, steps[j]['op'], o, C.brief(got[j]), C.brief(w),
                                                       [(s['o'], s['op']) for s in steps]))
        bump(probes, 'objects-in-turn:%s' % ('ok' if any(g[0] == 'v' for g in got) else 'all-failed'))
        turns = sum(a['o'] != b['o'] for a, b in zip(steps, steps[1:]))
        bump(probes, 'turns', turns)
        sig = [kind, [(s['o'], s['op'], sorted((s.get('params') or {}).items(), key=str)) for s in steps]]
        return result(v, len(steps), {}, [digest(repr(sig))] if turns else [], probes, digest(got))

    def execute(self, scn):
        if 'club' in scn:
            return self.execute_club(scn)
        got = isolated(_run, scn)
        faults, probes, v = {}, {}, None
        for f in got['fired']:
            if f:
                bump(faults, 'fault:' + scn['fault']['exc'])
        bump(faults, 'preemption', len(got['trace']))
        names = [[o.get('kind', o['op']) for o in t] if isinstance(t, list) else 'caller draws' for t in scn['threads']]
        if got['dead']:
            v = viol('deadlock', 'C07:deadlock', '%s: %s' % (names, got['dead']))
        if v is None and got['changed']:
            v = viol('settings', 'C07:settings:%s' % got['changed'][0],
                     '%s changed process-wide settings: %s' % (names, got['changed']))
        if v is None and got['streams']:
            v = viol('random-stream', 'C07:random-stream', '%s disturbed the caller\'s random number stream' % names)
        for t, o in enumerate(got['outs']):
            if v:
                break
            if o[0] != 'v':
                v = viol('thread-died', 'C07:thread', '%s: thread %d ended with %r' % (names, t, o))
                break
            want = isolated(_ref, scn, t)
            for j, ((out, hit, own), w) in enumerate(zip(o[1], want)):
                if own:
                    v = viol('settings', 'C07:settings:%s' % own[0], '%s in thread %d of %s changed settings of its '
                             'thread: %s%s' % (scn['threads'][t][j].get('kind', scn['threads'][t][j]['op']), t, names,
                                               own, ' (fault at %s)' % got['fired'][t] if got['fired'][t] else ''))
                    break
                if hit:
                    continue      # the failing call itself; C02 and C12 judge it
                if not C.same(out, w):
                    what = 'the caller\'s random draws' if isinstance(scn['threads'][t], dict) else \
                        scn['threads'][t][j].get('kind', scn['threads'][t][j]['op'])
                    v = viol('wrong-result', 'C07:%s' % what,
                             '%s in thread %d of %s gave %s, alone %s; switches %r' %
                             (what, t, names, C.brief(out), C.brief(w), got['trace'][:6]))
                    break
        nontrivial = bool(got['trace']) or any(got['fired'])
        sig = [names, [x[1:] for x in got['trace']], got['fired']]
        return result(v, got['steps'], faults, [digest(sig)] if nontrivial else [], probes, digest(got))

    def shrink(self, scn):
        from .main import drop_each
        if 'club' in scn:
            for o in sorted({s['o'] for s in scn['club']}):
                yield dict(scn, club=[s for s in scn['club'] if s['o'] != o])
            for j, s in enumerate(scn['club']):
                if s['op'] != 'create':
                    yield dict(scn, club=scn['club'][:j] + scn['club'][j + 1:])
            for j, s in enumerate(scn['club']):
                for n in s.get('params') or {}:
                    if n not in C.base_of(scn['kind']):
                        yield dict(scn, club=scn['club'][:j] + [dict(s, params={
                            k: x for k, x in s['params'].items() if k != n})] + scn['club'][j + 1:])
            return
        if scn.get('fault'):
            yield {k: v for k, v in scn.items() if k != 'fault'}
        for s in drop_each(scn.get('sched') or []):
            yield dict(scn, sched=s)
        if len(scn['threads']) > 1 and not scn.get('fault'):
            for t in range(len(scn['threads'])):
                yield dict(scn, threads=scn['threads'][:t] + scn['threads'][t + 1:])
        for t, ops in enumerate(scn['threads']):
            if isinstance(ops, list):
                for o in drop_each(ops):
                    yield dict(scn, threads=scn['threads'][:t] + [o] + scn['threads'][t + 1:])
        if scn.get('settings'):
            yield dict(scn, settings={})


PROP = C07()
