"""C06: concurrent use of a trained object gives the sequential results."""
import numpy as np

from . import catalog as C
from . import faults as F
from . import matops as MO
from . import sched as S
from . import watch as W
from .base import *

PIPES = [i for i, p in enumerate(C.PIPES) if 'RowNorm' not in p]
KINDS = C.ALG_KINDS + [k for k in C.TRA_KINDS if k != 'RowNorm'] + C.FIL_KINDS + ['Matrix'] * 4
ARG_OPS = C.ARG_OPS


def reads(kind):
    return [o for o in C.read_ops(kind) if o != 'str']


def subject(scn):
    """The shared object, trained, and the matrices the threads share."""
    C.L.load()
    if scn['kind'] == 'Matrix':
        return {k: C.M(v) for k, v in MO.operands(scn['data']).items()}, None
    obj = C.create(scn['kind'], scn['params'])
    out, _ = F.attempt(lambda: C.prepare(scn['kind'], obj, C.make_data(scn['kind'], scn['data'])), None)
    if not trained(out):
        return None, None
    shared = {}
    if scn.get('shared'):
        d = C.make_data(scn['kind'], scn['shared'])
        shared = dict(m=C.M(d['T'] if 'T' in d else d['X']))
    return obj, shared


def one(scn, obj, shared, op):
    kind = scn['kind']
    if kind == 'Matrix':
        return MO.obs(MO.READS[op['op']](obj))
    if op.get('data') is None and op['op'] in ARG_OPS and op['op'] != 'transform_response':
        return C.arr(C.method(obj, op['op'])(shared['m']))
    return C.read(kind, obj, op['op'], C.make_data(kind, op.get('data') or scn['data']))


def body(scn, obj, shared, ops, tid):
    def run(s):
        outs = []
        for op in ops:
            before = s.tasks[tid].fired if s else None
            try:
                out = ['v', one(scn, obj, shared, op)]
            except (Exception, KeyboardInterrupt) as e:  # noqa
                out = ['x', type(e).__name__]
            outs.append([out, s is not None and s.tasks[tid].fired is not None and before is None])
        return outs
    return run


def final(scn, obj, shared):
    if scn['kind'] == 'Matrix':
        return {n: C.outcome(lambda: MO.obs(MO.READS[n](obj))) for n in scn['after']}
    return C.probe(scn['kind'], obj, C.make_data(scn['kind'], scn['data']), reads(scn['kind']))


def _run(scn, record=False):
    C.reuse(scn.get('reuse'), True)
    obj, shared = subject(scn)
    if obj is None:
        return None
    fs = {}
    if scn.get('fault'):
        fs[scn['fault']['thread']] = scn['fault']
    s = S.Scheduler([body(scn, obj, shared, ops, i) for i, ops in enumerate(scn['threads'])], scn.get('sched') or [],
                    scn.get('gran', 'line'), {} if record else fs, record)
    if record:
        things = [obj, shared]
        s.look = W.light(things) if record == 'light' else W.full(things + [W.spaces()] * (record == 'all'))
        before, own = W.shared(), W.value(things, 6)
        s.run()
        more = 'all' if before != W.shared() else 'full' if own != W.value(things, 6) else None
        return s.sites, s.hot, more
    outs = s.run()
    return dict(outs=outs, steps=s.step, trace=s.trace, dead=s.deadlock,
                fired=[t.fired for t in s.tasks],
                final=None if s.deadlock else final(scn, obj, shared))


def _ref(scn):
    """Every operation on an object of its own, without threads."""
    outs = []
    for ops in scn['threads']:
        row = []
        for op in ops:
            obj, shared = subject(scn)
            row.append(C.outcome(lambda: one(scn, obj, shared, op)))
        outs.append(row)
    obj, shared = subject(scn)
    return dict(outs=outs, final=final(scn, obj, shared))


def _dry_fault(scn):
    obj, shared = subject(scn)
    f = scn['fault']
    return F.dry(lambda: body(scn, obj, shared, scn['threads'][f['thread']], f['thread'])(None), f['mode'])


class C06(Prop):
    id = 'C06'
    traits = ('scale', 'rows', 'used', 'wide', 'square', 'values')
    most = dict(most=140)
    quick_runs = 2600
    thorough_runs = 60000
    time_unit = 'scheduling points (source lines or byte-code instructions inside the library)'
    rule = ('one run = 2-3 threads using one trained object (or one matrix) read-only under one explicit schedule, '
            'sometimes with a failing call in one of them; every result is compared with the same call alone, and the '
            'object afterwards with an untouched one; non-trivial = at least one switch happened inside the library')
    distinct_measure = 'distinct (class, operations per thread, sequence of switches with their source sites)'
    stubs = ['thread scheduling (explicit schedule, one thread runs at a time)', 'threading.Lock/RLock (scheduled)']

    def scenario(self, rng, i, tier):
        kind = KINDS[i % len(KINDS)]
        n = rng.choice([2, 2, 2, 3])
        gran = 'opcode' if rng.random() < 0.3 else 'line'
        if kind == 'Matrix':
            d = dict(seed=rng.randrange(10 ** 6), n=rng.randint(2, 4), p=rng.randint(2, 4),
                     v=rng.choice(MO.VARIANTS))
            pool = sorted(MO.READS)
            if rng.random() < 0.6:
                pool = ['q.' + q for q in sorted(MO.QUERIES)]
            pool = rng.sample(pool, min(len(pool), rng.choice([1, 2, 6])))
            threads = [[dict(op=rng.choice(pool)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
            scn = dict(kind=kind, data=d, threads=threads, gran=gran, after=sorted(pool)[:4])
        else:
            params = rand_params(rng, kind, rng.choice([0.0, 0.4]))
            if kind == 'MultiFilter':
                params = dict(pipe=rng.choice(PIPES))
            d = rand_data(rng, kind)
            ops = reads(kind)
            calls = [o for o in ops if o in ARG_OPS]
            fav = rng.choice(calls) if calls and rng.random() < 0.4 else None
            threads = []
            for _ in range(n):
                row = []
                for _ in range(rng.choice([1, 1, 2])):
                    op = dict(op=fav or rng.choice(calls if calls and rng.random() < 0.6 else ops))
                    if rng.random() < 0.75:
                        op['data'] = use_data(rng, kind, d)
                    row.append(op)
                threads.append(row)
            scn = dict(kind=kind, params=params, data=d, threads=threads, gran=gran,
                       shared=use_data(rng, kind, d))
        if set(TRAITS) & {'rows', 'used', 'wide'}:
            scn['gran'] = 'line'
        if rng.random() < 0.2:
            scn['reuse'] = 1
        elif rng.random() < 0.25:
            scn['fault'] = dict(rand_fault(rng, kind), thread=rng.randrange(n))
        return scn

    def resolve(self, scn, rng):
        if scn.get('fault'):
            scn['gran'] = 'line'
        if scn.get('fault'):
            f = pick_fault(rng, scn['fault'], _dry_fault, scn)
            if f:
                scn['fault'] = f
            else:
                del scn['fault']
        try:
            sites, hot, more = isolated(_run, scn, 'light')
            if more and len(sites) < 20000:
                # something was written for good: look for all the places
                sites, hot, _ = isolated(_run, scn, more)
        except Exception:  # noqa
            sites = hot = None
        scn['sched'] = S.draw(rng, sites, len(scn['threads']), hot) if sites else []
        return scn

    def execute(self, scn):
        kind = scn['kind']
        got = isolated(_run, scn)
        if got is None:
            return result(None, 0, {}, [], {'not-trained': 1}, digest('none'))
        want = isolated(_ref, scn)
        faults, probes, v = {}, {}, None
        for f in got['fired']:
            if f:
                bump(faults, 'fault:' + scn['fault']['exc'])
        bump(faults, 'preemption', len(got['trace']))
        if len(got['trace']) > 3:
            bump(probes, 'more-than-3-switches')
        if got['dead']:
            v = viol('deadlock', 'C06:%s:deadlock' % kind, '%s: %s' % (kind, got['dead']))
        for t, (o, w) in enumerate(zip(got['outs'], want['outs'])):
            if v:
                break
            if o[0] != 'v':
                v = viol('thread-died', 'C06:%s:thread' % kind, '%s: thread %d ended with %r' % (kind, t, o))
                break
            for j, ((out, hit), exp) in enumerate(zip(o[1], w)):
                if hit and out[0] == 'x':
                    continue
                if not C.same(out, exp):
                    op = scn['threads'][t][j]['op']
                    v = viol('wrong-result', 'C06:%s:%s' % (kind, op),
                             '%s.%s in thread %d returned %s, alone it returns %s; switches %r' %
                             (kind, op, t, C.brief(out), C.brief(exp), got['trace'][:6]))
                    break
        if v is None:
            bad = C.diff_keys(want['final'], got['final'])
            if bad:
                v = viol('disturbed', 'C06:%s:disturbed' % kind,
                         '%s answers differently after concurrent use: %s: %s instead of %s; switches %r' %
                         (kind, bad, C.brief(got['final'][bad[0]]), C.brief(want['final'][bad[0]]), got['trace'][:6]))
        sig = [kind, [[o['op'] for o in t] for t in scn['threads']], [x[1:] for x in got['trace']], got['fired']]
        return result(v, got['steps'], faults, [digest(sig)] if got['trace'] else [], probes, digest(got))

    def shrink(self, scn):
        from .main import drop_each
        if scn.get('fault'):
            yield {k: v for k, v in scn.items() if k != 'fault'}
        for s in drop_each(scn['sched']):
            yield dict(scn, sched=s)
        if len(scn['threads']) > 2:
            for t in range(len(scn['threads'])):
                yield dict(scn, threads=scn['threads'][:t] + scn['threads'][t + 1:])
        for t, ops in enumerate(scn['threads']):
            for o in drop_each(ops):
                yield dict(scn, threads=scn['threads'][:t] + [o] + scn['threads'][t + 1:])
        for c in super().shrink(scn):
            yield c


PROP = C06()
