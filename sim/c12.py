"""C12: a failed or interrupted use of a trained object leaves it intact."""
import numpy as np

from . import catalog as C
from . import faults as F
from . import matops as MO
from .base import *

ARG_OPS = C.ARG_OPS


def reads(kind):
    return [o for o in C.read_ops(kind) if not (kind == 'RowNorm' and o == 'means')]


def ready(scn):
    obj = C.create(scn['kind'], scn['params'])
    out, _ = F.attempt(lambda: C.prepare(scn['kind'], obj, C.make_data(scn['kind'], scn['data'])), None)
    return obj, trained(out)


def op_data(kind, op):
    d = C.make_data(kind, op['data'])
    key = 'T' if 'T' in d else 'X'
    a = d[key]
    bad = op.get('bad')
    if bad == 'narrow':
        a = a[:, :-1]
    elif bad == 'wide':
        a = np.c_[a, a[:, :1]]
    elif bad == 'nan':
        a[0, 0] = np.nan
    elif bad == 'inf':
        a[-1, -1] = np.inf
    elif bad == 'empty':
        a = a[:0]
    elif bad == 'one':
        a = a[:1]
    d[key] = a
    if op['op'] == 'transform_response' and bad == 'narrow':
        d['y'] = d['y'][:, :1]
    return d


def call(kind, obj, op):
    if kind == 'Matrix':
        return lambda: MO.obs(MO.READS[op['op']](obj))
    d = op_data(kind, op)
    return lambda: C.read(kind, obj, op['op'], d)


def subject(scn):
    if scn['kind'] == 'Matrix':
        return {k: C.M(v) for k, v in MO.operands(scn['data']).items()}, True
    return ready(scn)


def _run(scn):
    C.L.load()
    C.reuse(scn.get('reuse'))
    obj, ok = subject(scn)
    if not ok:
        return dict(ok=False, outs=[], fired=[])
    outs, fired = [], []
    for op in scn['ops']:
        out, f = F.attempt(call(scn['kind'], obj, op), op.get('fault'))
        outs.append([out, f])
        if f:
            fired.append(['fault:' + op['fault']['exc'], f])
    params = C.read_params(scn['kind'], obj) if scn['kind'] != 'Matrix' else None
    return dict(ok=True, outs=outs, fired=fired, params=params)


def _ref(scn):
    """Every operation on an object that did nothing else since it was trained."""
    C.L.load()
    outs = []
    for op in scn['ops']:
        obj, ok = subject(scn)
        outs.append(F.attempt(call(scn['kind'], obj, op), None)[0])
    obj, ok = subject(scn)
    return dict(outs=outs, params=C.read_params(scn['kind'], obj) if scn['kind'] != 'Matrix' else None)


def _dry(scn, j):
    C.L.load()
    obj, ok = subject(scn)
    return F.dry(call(scn['kind'], obj, scn['ops'][j]), scn['ops'][j]['fault']['mode'])


class C12(Prop):
    id = 'C12'
    traits = ('scale', 'long', 'rows', 'used', 'wide', 'square', 'values')
    quick_runs = 4900
    thorough_runs = 60000
    time_unit = 'public calls on the simulated object'
    rule = ('one run = a trained object (or matrices) and a series of read-only calls, some failing by injected numeric '
            'faults or interrupts or by unusable arguments; every call is compared with the same call on an object '
            'that did nothing else; non-trivial = at least one call failed and later calls were compared')
    distinct_measure = 'distinct (class, operation and outcome sequence, fault sites)'

    def scenario(self, rng, i, tier):
        kinds = C.ALL_KINDS + ['Matrix'] * 4
        kind = kinds[i % len(kinds)]
        if kind == 'Matrix':
            names = rng.sample(sorted(MO.READS), 4)
            if rng.random() < 0.7:
                names += rng.sample(sorted('q.' + q for q in MO.QUERIES), 3)
            ops = []
            for n in names:
                op = dict(op=n)
                if rng.random() < 0.5:
                    op['fault'] = rand_fault(rng, kind)
                ops.append(op)
            ops += [dict(op=n) for n in names]
            return dict(kind=kind, data=dict(seed=rng.randrange(10 ** 6), n=rng.randint(3, 5), p=rng.randint(3, 5),
                                             v=rng.choice(MO.VARIANTS)), ops=ops)
        params = rand_params(rng, kind, rng.choice([0.0, 0.5]))
        if kind == 'MultiFilter':
            params = dict(pipe=rng.randrange(len(C.PIPES)))
        d = rand_data(rng, kind, rng.choice(['', '', '', 'const', 'outlier']))
        ops = []
        for _ in range(times(rng.choice([1, 2, 3, 4]))):
            op = dict(op=rng.choice(reads(kind)), data=d if rng.random() < 0.4 else use_data(rng, kind, d))
            if op['op'] in ARG_OPS and rng.random() < 0.3:
                op['bad'] = rng.choice(['narrow', 'wide', 'nan', 'inf', 'one', 'one'])
            if op.get('bad', 'one') == 'one' and rng.random() < 0.75:
                op['fault'] = rand_fault(rng, kind)
            ops.append(op)
        final = use_data(rng, kind, d)
        ops += [dict(op=o, data=final) for o in reads(kind)]
        scn = dict(kind=kind, params=params, data=d, ops=ops)
        if rng.random() < 0.3:
            scn['reuse'] = 1
        return scn

    def resolve(self, scn, rng):
        for j, op in enumerate(scn['ops']):
            if op.get('fault'):
                f = pick_fault(rng, op['fault'], _dry, scn, j)
                if f:
                    op['fault'] = f
                else:
                    del op['fault']
        return scn

    def execute(self, scn):
        kind = scn['kind']
        got = isolated(_run, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        if not got['ok']:
            bump(probes, 'not-trained')
            return result(None, 1, faults, [], probes, digest('untrained'))
        want = isolated(_ref, scn)
        v, failed = None, False
        for j, (op, (out, f), w) in enumerate(zip(scn['ops'], got['outs'], want['outs'])):
            if f and out[0] == 'x':
                failed = True
                bump(probes, 'fault-surfaced')
                continue
            if w[0] == 'x':
                failed = True
                bump(probes, 'refused-argument')
            if f:
                bump(probes, 'fault-absorbed')
            if not C.same(out, w):
                if f:
                    v = viol('wrong-result', 'C12:%s:%s:wrong-result' % (kind, op['op']),
                             '%s.%s hit an injected %s at %s, yet returned %s instead of %s' %
                             (kind, op['op'], op['fault']['exc'], f, C.brief(out), C.brief(w)))
                else:
                    v = viol('disturbed', 'C12:%s:%s:disturbed' % (kind, op['op']),
                             '%s.%s answers %s, without the earlier calls %s; earlier: %s' %
                             (kind, op['op'], C.brief(out), C.brief(w),
                              [(o['op'], o.get('bad'), g[1]) for o, g in zip(scn['ops'][:j], got['outs'])]))
                break
        if v is None and not C.same(got['params'], want['params']):
            v = viol('params', 'C12:%s:params' % kind, '%s: parameters changed from %r to %r by failing reads' %
                     (kind, want['params'], got['params']))
        if failed:
            bump(probes, 'compared-after-failure')
        sig = [kind, [[o['op'], o.get('bad'), g[0][0], g[1]] for o, g in zip(scn['ops'], got['outs'])]]
        return result(v, len(scn['ops']), faults, [digest(sig)] if failed else [], probes, digest(got['outs']))


PROP = C12()
