"""C04: the caller's data is never modified and never aliased into a model."""
import numpy as np

from . import catalog as C
from . import faults as F
from . import matops as MO
from .base import *


def snap(ms):
    return [(m.data.shape, m.data.dtype.str, np.ascontiguousarray(m.data).tobytes()) for m in ms]


def garble(m, salt):
    """Overwrites a caller-owned matrix in place."""
    m.data[...] = 17.0 + salt * np.arange(m.data.size).reshape(m.data.shape)
    m.reset_cache()


def _object_run(scn):
    """train/configure and reads with the caller's matrices watched, then overwritten."""
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    data = C.make_data(kind, scn['data'])
    fired, mods, steps = [], [], 0
    args = C.prepare_args(kind, data, scn.get('layout'))
    live = [a for a in args if a is not None]
    before = snap(live)
    out, f = F.attempt(lambda: C.prepare(kind, obj, data, args), scn.get('fault'))
    steps += 1
    if f:
        fired.append(['fault:' + scn['fault']['exc'], f])
    if snap(live) != before:
        mods.append(['train', [i for i, (a, b) in enumerate(zip(snap(live), before)) if a != b], f])
    ok = trained(out)
    probes = None
    if ok:
        for i, m in enumerate(live):
            garble(m, i + 1)
        for j, op in enumerate(scn['ops']):
            d = C.make_data(kind, op['data'])
            T = d['T'] if 'T' in d else d['X']
            if op['op'] == 'transform_response':
                T = d['y'][:4]
            if op.get('bad') == 'narrow':
                T = T[:, :-1]
            elif op.get('bad') == 'wide':
                T = np.c_[T, T[:, :1]]
            elif op.get('bad') == 'nan':
                T[-1, -1] = np.nan
            m = C.M(T, op.get('layout'))
            b = snap([m])
            fn = C.method(obj, op['op'])
            out2, f = F.attempt(lambda: fn(m), op.get('fault'))
            steps += 1
            if f:
                fired.append(['fault:' + op['fault']['exc'], f])
            if snap([m]) != b:
                mods.append([op['op'], [0], f])
            res = out2[1] if out2[0] == 'v' else None
            if res is not None and res is not m:
                garble(res, 3)
            garble(m, 5)
        probes = C.probe(kind, obj, data, scn['probe'])
    elif scn.get('kept') is not None:
        pass
    return dict(mods=mods, ok=ok, probe=probes, fired=fired, steps=steps, out=str(out[1])[:60])


def _object_ref(scn):
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    data = C.make_data(kind, scn['data'])
    args = C.prepare_args(kind, data, scn.get('layout'))
    out, _ = F.attempt(lambda: C.prepare(kind, obj, data, args), None)
    return dict(ok=trained(out), probe=C.probe(kind, obj, data, scn['probe']) if trained(out) else None)


def flat(x):
    """Matrices and writable arrays in a result."""
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, C.L.Matrix) or (isinstance(x, np.ndarray) and x.flags.writeable):
        yield x


def _matrix_run(scn):
    old = MO.operands(scn['data'])
    o = {k: C.M(v, scn.get('layout')) for k, v in old.items()}
    names = sorted(o)
    C.L.load()
    mods, fired, outs = [], [], []
    for op in scn['ops']:
        before = snap([o[k] for k in names])
        out, f = F.attempt(lambda: MO.READS[op['op']](o), op.get('fault'))
        if f:
            fired.append(['fault:' + op['fault']['exc'], f])
        after = snap([o[k] for k in names])
        if after != before:
            mods.append([op['op'], [k for k, a, b in zip(names, before, after) if a != b], f])
        outs.append([op['op'], out[0]])
        # results and operands are separate: overwriting the ones leaves the others
        if out[0] == 'v':
            res = list(flat(out[1]))
            saved = [np.array(x.data if isinstance(x, C.L.Matrix) else x) for x in res]
            for x in res:
                (x.data if isinstance(x, C.L.Matrix) else x)[...] = 77.0
            if snap([o[k] for k in names]) != after:
                mods.append([op['op'] + ' (overwriting its result)',
                             [k for k, a, b in zip(names, snap([o[k] for k in names]), after) if a != b], None])
                for k in names:
                    o[k].data[...] = old[k]
            for x, s in zip(res, saved):
                (x.data if isinstance(x, C.L.Matrix) else x)[...] = s
            for k in names:
                o[k].data[...] = -55.0
            if any(not np.array_equal(x.data if isinstance(x, C.L.Matrix) else x, s, equal_nan=True)
                   for x, s in zip(res, saved)):
                mods.append([op['op'] + ' (overwriting its operands changed the result)', [], None])
        for k in names:
            o[k] = C.M(old[k], scn.get('layout'))
    return dict(mods=mods, fired=fired, steps=len(scn['ops']), outs=outs)


def _dry_object(scn, which):
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    data = C.make_data(kind, scn['data'])
    args = C.prepare_args(kind, data, scn.get('layout'))
    if which == -1:
        return F.dry(lambda: C.prepare(kind, obj, data, args), scn['fault']['mode'])
    C.prepare(kind, obj, data, args)
    op = scn['ops'][which]
    return F.dry(lambda: C.read(kind, obj, op['op'], C.make_data(kind, op['data'])), op['fault']['mode'])


def _dry_matrix(scn, which):
    o = {k: C.M(v) for k, v in MO.operands(scn['data']).items()}
    op = scn['ops'][which]
    return F.dry(lambda: MO.READS[op['op']](o), op['fault']['mode'])


CALLS = C.ARG_OPS


class C04(Prop):
    id = 'C04'
    traits = ('scale', 'long', 'rows', 'used', 'wide', 'square', 'values')
    quick_runs = 8000
    thorough_runs = 50000
    time_unit = 'public calls with watched arguments'
    rule = ('one run = training/configuring one object and using it (or a series of read-only matrix operations) with '
            'every argument compared bit by bit before and after each call, faults injected inside; arguments and '
            'returned matrices are then overwritten and the object is compared with a fresh one; non-trivial = the '
            'object was trained and compared after overwriting, or a fault fired')
    distinct_measure = 'distinct (class, operations, fault sites, outcome)'

    def scenario(self, rng, i, tier):
        kinds = C.ALL_KINDS + ['Matrix'] * 6
        kind = kinds[i % len(kinds)]
        fault = rng.random() < 0.5
        if kind == 'Matrix':
            ops = []
            for n in rng.sample(sorted(MO.READS), 6):
                op = dict(op=n)
                if fault and rng.random() < 0.4:
                    op['fault'] = rand_fault(rng, kind)
                ops.append(op)
            return dict(kind=kind, data=dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 3, 4, 5, 6, 30]),
                                             p=rng.choice([1, 2, 3, 4, 5]),
                                             v=rng.choice(MO.VARIANTS)), ops=ops,
                        layout=rng.choice([None, None, 'F', 'S']))
        params = rand_params(rng, kind, rng.choice([0.0, 0.5]))
        if kind == 'MultiFilter':
            params = dict(pipe=rng.randrange(len(C.PIPES)))
        d = rand_data(rng, kind, rng.choice(['', '', '', '', 'const', 'nan', 'rows', 'outlier']))
        scn = dict(kind=kind, params=params, data=d, ops=[], probe=[o for o in C.read_ops(kind) if o != 'str'])
        if rng.random() < 0.3:
            scn['layout'] = rng.choice(['F', 'S'])
        if kind == 'RowNorm':
            scn['probe'] = [o for o in scn['probe'] if o != 'means']
        if fault and rng.random() < 0.5:
            scn['fault'] = rand_fault(rng, kind)
        calls = [o for o in C.read_ops(kind) if o in CALLS]
        for _ in range(times(rng.choice([0, 1, 2, 3]))):
            if not calls:
                break
            op = dict(op=rng.choice(calls), data=d if rng.random() < 0.3 else use_data(rng, kind, d))
            if rng.random() < 0.3:
                op['layout'] = rng.choice(['F', 'S'])
            if rng.random() < 0.2:
                op['bad'] = rng.choice(['narrow', 'wide', 'nan'])
            elif fault and 'fault' not in scn and rng.random() < 0.5:
                op['fault'] = rand_fault(rng, kind)
            scn['ops'].append(op)
        return scn

    def resolve(self, scn, rng):
        if scn['kind'] == 'Matrix':
            for j, op in enumerate(scn['ops']):
                if op.get('fault'):
                    f = pick_fault(rng, op['fault'], _dry_matrix, scn, j)
                    if f:
                        op['fault'] = f
                    else:
                        del op['fault']
            return scn
        if scn.get('fault'):
            f = pick_fault(rng, scn['fault'], _dry_object, scn, -1)
            if f:
                scn['fault'] = f
            else:
                del scn['fault']
        for j, op in enumerate(scn['ops']):
            if op.get('fault'):
                f = pick_fault(rng, op['fault'], _dry_object, scn, j)
                if f:
                    op['fault'] = f
                else:
                    del op['fault']
        return scn

    def execute(self, scn):
        kind = scn['kind']
        got = isolated(_matrix_run if kind == 'Matrix' else _object_run, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        v = None
        if got['mods']:
            op, which, f = got['mods'][0]
            v = viol('modified', 'C04:%s:%s:modified' % (kind, op),
                     '%s.%s changed its argument %r%s' % (kind, op, which, ' (fault at %s)' % f if f else ''))
        nontrivial = bool(got['fired']) or kind == 'Matrix'
        if kind != 'Matrix' and got['ok'] and v is None:
            nontrivial = True
            bump(probes, 'compared-after-overwriting')
            want = isolated(_object_ref, scn)
            if want['ok']:
                bad = C.diff_keys(want['probe'], got['probe'])
                if bad:
                    v = viol('aliased', 'C04:%s:aliased' % kind,
                             '%s: after the caller overwrote its own matrices and returned results, %s changed: %s '
                             'instead of %s' % (kind, bad, C.brief(got['probe'][bad[0]]),
                                                C.brief(want['probe'][bad[0]])))
        sig = [kind, [o['op'] for o in scn['ops']], got['fired'], got.get('out')]
        return result(v, got['steps'], faults, [digest(sig)] if nontrivial else [], probes, digest(got))

    def shrink(self, scn):
        if scn.get('fault'):
            yield {k: v for k, v in scn.items() if k != 'fault'}
        for c in super().shrink(scn):
            yield c


PROP = C04()
