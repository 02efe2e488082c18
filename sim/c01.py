"""C01: training is independent of the object's history."""
from . import catalog as C
from . import faults as F
from .base import *


def _subject(scn):
    """Runs the history on one object, then the final training; returns observations."""
    kind = scn['kind']
    obj = C.create(kind, scn['params'], scn.get('cls'))
    C.reuse(scn.get('reuse'))
    log, fired, steps = [], [], 0
    last = None
    for op in scn['ops']:
        steps += 1
        o = op['op']
        if o == 'train':
            out, f = F.attempt(train_fn(kind, obj, op['data']), op.get('fault'))
            last = C.make_data(kind, op['data'])
        elif o == 'read':
            data = C.make_data(kind, op['data']) if op.get('data') else last
            if data is None:
                continue
            out, f = F.attempt(lambda: C.read(kind, obj, op['what'], data), op.get('fault'))
        elif o == 'reset':
            out, f = F.attempt(obj.reset, None)
        elif o == 'defaults':
            out, f = F.attempt(obj.initialize, None)
        elif o == 'set':
            out, f = F.attempt(lambda: C.set_param(obj, op['name'], op['value']), None)
        elif o == 'bad':
            out, f = F.attempt(lambda: C.set_param(obj, op['name'], op['value']), None)
        elif o == 'debug':
            obj.debug = op['value']
            out, f = ['v', None], None
        elif o == 'share':
            # another object uses the same parameter object (kernel, approximation function)
            other = C.create(kind, scn['params'])
            setattr(other, op['name'], getattr(obj, op['name']))
            out, f = F.attempt(train_fn(kind, other, op['data']), op.get('fault'))
        else:
            raise ValueError(o)
        log.append([o, out[0], out[1] if out[0] == 'x' else None])
        if f:
            fired.append(['fault:%s' % (op['fault']['exc']), f])
    fin = C.make_data(kind, scn['final'])
    res, _ = F.attempt(train_fn(kind, obj, scn['final']), None)
    return dict(res=res, probe=C.probe(kind, obj, fin), params=C.read_params(kind, obj), log=log, fired=fired,
                steps=steps + 1)


def effective_params(scn):
    p = dict(scn['params'])
    for op in scn['ops']:
        if op['op'] == 'defaults':
            p = {}
        if op['op'] == 'set':
            p[op['name']] = op['value']
    return p


def _fresh(kind, params, final):
    obj = C.create(kind, params)
    before = C.read_params(kind, obj)
    fin = C.make_data(kind, final)
    res, _ = F.attempt(train_fn(kind, obj, final), None)
    return dict(res=res, probe=C.probe(kind, obj, fin), params=before)


def _dry(kind, params, op):
    obj = C.create(kind, params)
    data = C.make_data(kind, op['data'])
    if op['op'] == 'read':
        C.train(kind, obj, data)
        return F.dry(lambda: C.read(kind, obj, op['what'], data), op['fault']['mode'])
    return F.dry(train_fn(kind, obj, op['data']), op['fault']['mode'])


def resolve_faults(scn, rng):
    for op in scn['ops']:
        f = op.get('fault')
        if f and 'k' not in f:
            try:
                sites = isolated(_dry, scn['kind'], scn['params'], op)
            except Exception:  # noqa
                sites = []
            k = F.pick(rng, sites)
            if k is None:
                del op['fault']
            else:
                f['k'] = k
    return scn


BAD = ['rows', 'cols', 'zero', 'nan', 'nany', 'none', 'zeroy', 'const', 'coll', 'outlier', 'inf', 'big']
ODD = ['const', 'coll', 'outlier', 'const', 'rows', 'zeroy', 'nan']


class C01(Prop):
    id = 'C01'
    traits = ('scale', 'long', 'rows', 'wide', 'square', 'values')
    quick_runs = 8000
    thorough_runs = 60000
    time_unit = 'public calls on the simulated object'
    rule = ('one run = one object, a random history of trainings (other data and shapes, rejected data, with numeric '
            'failures or interrupts injected inside), reads, parameter changes (valid and rejected), resets and '
            'debug switches, then a fault-free training compared with a fresh object in a pristine process; '
            'non-trivial = history contains a training or parameter change and the final training was decided')
    distinct_measure = 'distinct (algorithm, sequence of operation kinds and outcomes, fault sites)'

    def scenario(self, rng, i, tier):
        kind = C.ALG_KINDS[i % len(C.ALG_KINDS)]
        params = rand_params(rng, kind, rng.choice([0.0, 0.4, 0.8]))
        ops = []
        faulty = rng.random() < 0.6
        n = times(rng.choice([1, 1, 2, 2, 3, 4, 6]))
        valid = C.params_of(kind)
        invalid = C.invalid_of(kind)
        final = rand_data(rng, kind, rng.choice(ODD) if rng.random() < 0.1 else '')
        pool = [final] + [rand_data(rng, kind) for _ in range(2)]
        trained = False
        for _ in range(n):
            x = rng.random()
            if x < 0.5 or not ops:
                if rng.random() < 0.15:
                    d = rand_data(rng, kind, rng.choice(BAD))
                elif rng.random() < 0.6:
                    d = rng.choice(pool)
                else:
                    d = rand_data(rng, kind)
                if rng.random() < 0.15 and kind in ('PCA', 'FastICA'):
                    d = dict(d, n=rng.randint(3, 5), p=rng.randint(2, 3))
                op = dict(op='train', data=d)
                if faulty and rng.random() < 0.5 and not d.get('v'):
                    op['fault'] = rand_fault(rng, kind)
                ops.append(op)
                trained = True
            elif x < 0.68:
                op = dict(op='read', what=rng.choice(C.read_ops(kind)))
                if rng.random() < 0.3:
                    op['data'] = rng.choice(pool)
                    if faulty and rng.random() < 0.5:
                        op['fault'] = rand_fault(rng, kind)
                ops.append(op)
            elif x < 0.84 and valid:
                name = rng.choice(sorted(valid))
                ops.append(dict(op='set', name=name, value=rng.choice(valid[name])))
            elif x < 0.88 and invalid:
                name = rng.choice(sorted(invalid))
                ops.append(dict(op='bad', name=name, value=rng.choice(invalid[name])))
            elif x < 0.92:
                ops.append(dict(op='reset' if rng.random() < 0.6 else 'defaults'))
            elif x < 0.96:
                ops.append(dict(op='debug', value=rng.choice([True, False])))
            elif kind in ('KernelPLS', 'FastICA'):
                ops.append(dict(op='share', name={'KernelPLS': 'kernel', 'FastICA': 'fun'}[kind],
                                data=rand_data(rng, kind)))
        if final.get('s') == 3:
            # an interrupt between recording the domain sizes and the training itself is outside the guarantee
            for op in ops:
                if op.get('fault'):
                    op['fault'] = dict(mode='call', exc='MemoryError')
        scn = dict(kind=kind, params=params, ops=ops, final=final)
        if rng.random() < 0.3:
            # the caller keeps its matrices and fills them with new contents
            scn['reuse'] = 1
            for op in ops:
                if op['op'] == 'train' and rng.random() < 0.6:
                    op['data'] = dict(op['data'], **{k: final[k] for k in ('n', 'p', 'm', 'tn', 's') if k in final})
        return scn

    def resolve(self, scn, rng):
        return resolve_faults(scn, rng)

    def execute(self, scn):
        kind = scn['kind']
        want = isolated(_fresh, kind, effective_params(scn), scn['final'])
        got = isolated(_subject, scn)
        faults = {}
        for name, site in got['fired']:
            bump(faults, name)
        probes = {}
        for l in got['log']:
            bump(probes, l[0] + (':failed' if l[1] == 'x' else ':ok'))
        ok = lambda r: r['res'][0] == 'v' and r['res'][1] is None
        bump(probes, 'final:trained' if ok(want) else 'final:refused')
        sigs = [digest([kind, got['log'], got['fired']])] if scn['ops'] else []
        v = None
        hist = '; '.join(l[0] for l in got['log'])
        if ok(want) != ok(got):
            v = viol('result', 'C01:%s:result' % kind,
                     '%s: after the history [%s] training ends with %r, on a fresh object with %r' %
                     (kind, hist, got['res'], want['res']))
        elif ok(want):
            bad = C.diff_keys(want['probe'], got['probe'])
            if bad:
                v = viol('model', 'C01:%s:%s' % (kind, ','.join(bad)),
                         '%s: after the history [%s] the trained model differs from a fresh one in %s: %s vs %s' %
                         (kind, hist, bad, C.brief(got['probe'][bad[0]]), C.brief(want['probe'][bad[0]])))
        if v is None and not C.same(want['params'], got['params']):
            bad = [n for n in want['params'] if want['params'][n] != got['params'].get(n)]
            v = viol('params', 'C01:%s:params:%s' % (kind, ','.join(bad)),
                     '%s: parameters %s changed by the history [%s] + training: %r instead of %r' %
                     (kind, bad, hist, [got['params'].get(n) for n in bad], [want['params'][n] for n in bad]))
        if v is not None and scn.get('cls') == 'DIPLSraw':
            v['key'] = 'C01:DIPLS:stale-centering'
        return result(v, got['steps'], faults, sigs, probes, digest([got, want]))


PROP = C01()
