"""C11: parameter changes are all-or-nothing and invalidate the model."""
import json

from . import catalog as C
from . import faults as F
from .base import *

STATELESS = ('Downsample', 'Equidistance', 'PolyKernel', 'RBFKernel')
KINDS = C.ALG_KINDS + [k for k in C.TRA_KINDS if C.TRA_PARAMS[k][0] and k != 'MSC'] + list(STATELESS)
STRATEGIES = [{'strategy': s} for s in ('UNSUPERVISED', 'SUPERVISED', 'SEMISUPERVISED')]
WRONG = ['many', None, {'tuple': [1, 2]}]
# operations an algorithm without a model has to refuse
ASSIGN = ('set', 'bad', 'wrong', 'strategy', 'mutate', 'defaults')
REFUSE = ('predict', 'transform', 'reconstruct', 'serial')
ANSWERS = ('predict', 'transform', 'matrices', 'attrs', 'coefficients', 'reconstruct', 'serial')


# settings of parameter objects
MUTATE = {'RBFKernel': [dict(gamma=0.9), dict(gamma=0.11)], 'PolyKernel': [dict(degree=3), dict(coef_0=1.5), dict(gamma=0.7)],
          'LogCosH': [dict(alpha=1.7), dict(alpha=1.2)], 'PLS1': [dict(num_components=1), dict(num_components=2)],
          'SIMPLS': [dict(num_components=1), dict(num_components=2)],
          'NIPALS': [dict(num_components=1), dict(num_components=2)]}


def refuse_ops(kind):
    out = [o for o in C.read_ops(kind) if o in REFUSE]
    if kind == 'CCAFilter':
        out.append('transform_response')
    return out


def reads(kind):
    ops = [o for o in C.read_ops(kind) if o in ANSWERS] if kind in C.ALG_KINDS else \
        [o for o in C.read_ops(kind) if o in ('transform', 'inverse', 'gram', 'cross', 'vector')]
    if kind == 'CCAFilter':
        ops.append('transform_response')
    return ops


def do(kind, obj, op):
    o = op['op']
    if o in ('set', 'bad', 'wrong', 'strategy'):
        v = C.decode(op['value'])
        return lambda: setattr(obj, op['name'], v)
    if o == 'defaults':
        return obj.initialize
    if o == 'mutate':
        # the parameter object is changed and assigned again: the same object with another meaning
        def change():
            p = getattr(obj, op['name'])
            for n, v in op['with'].items():
                setattr(p, n, v)
            setattr(obj, op['name'], p)
        return change
    if o == 'train':
        data = C.make_data(kind, op['data'])
        args = C.prepare_args(kind, data)
        return lambda: C.prepare(kind, obj, data, args)
    data = C.make_data(kind, op['data'])
    return lambda: C.read(kind, obj, o, data)


def _run(scn):
    C.L.load()
    kind = scn['kind']
    alg = kind in C.ALG_KINDS
    obj = C.create(kind, scn['params'])
    log, fired = [], []
    for op in scn['ops']:
        out, f = F.attempt(do(kind, obj, op), op.get('fault'))
        if f:
            fired.append(['fault:' + op['fault']['exc'], f])
        rec = dict(out=out if op['op'] not in ASSIGN else [out[0], None if out[0] == 'v' else out[1]],
                   fired=f, params=C.read_params(kind, obj))
        if alg:
            rec['probe'] = C.probe(kind, obj, C.make_data(kind, scn['probe']), reads(kind))
        log.append(rec)
    return dict(log=log, fired=fired)


def _fresh(kind, params, conf, op, probe):
    """A new object with these parameters, optionally trained; then a read or a probe."""
    C.L.load()
    obj = C.create(kind, params)
    out = dict(params=C.read_params(kind, obj))
    if conf is not None:
        out['train'] = F.attempt(do(kind, obj, dict(op='train', data=conf)), None)[0]
        if kind in C.TRA_KINDS and out['train'][0] == 'x':
            out['impossible'] = True
    if op is not None:
        out['read'] = F.attempt(do(kind, obj, op), None)[0]
    if probe is not None:
        out['probe'] = C.probe(kind, obj, C.make_data(kind, probe), reads(kind))
    return out


def _dry(kind, params, conf, op):
    C.L.load()
    obj = C.create(kind, params)
    if conf is not None:
        F.attempt(do(kind, obj, dict(op='train', data=conf)), None)
    return F.dry(do(kind, obj, op), 'line')


class C11(Prop):
    id = 'C11'
    traits = ('scale', 'long', 'used', 'square', 'values')
    quick_runs = 2300
    thorough_runs = 40000
    time_unit = 'public calls on the simulated object'
    rule = ('one run = one object and a random history of trainings/configurations, uses and assignments of valid, '
            'invalid and wrongly typed parameter values, some assignments interrupted part-way; parameters and model '
            'are compared after every step with new objects in the states the history allows; non-trivial = an '
            'assignment hit an object that had a model')
    distinct_measure = 'distinct (class, operation sequence with parameter names and values, outcomes, fault sites)'

    def scenario(self, rng, i, tier):
        kind = KINDS[i % len(KINDS)]
        params = rand_params(rng, kind, rng.choice([0.0, 0.4]))
        valid, invalid = C.params_of(kind), C.invalid_of(kind)
        mutable = {'KernelPLS': 'kernel', 'OPLS': 'base_PLS', 'FastICA': 'fun'}.get(kind)
        if mutable:
            params.setdefault(mutable, rng.choice(valid[mutable]))
            cur = params[mutable]
        d = rand_data(rng, kind)
        if kind == 'DIPLS':
            d['s'] = d['s'] % 3
        ops = []
        now = dict(params)

        def train():
            if rng.random() < 0.12 and kind in C.ALG_KINDS:
                return dict(op='train', data=dict(d, v=rng.choice(['rows', 'nan', 'zero'])))
            return dict(op='train', data=dict(d, seed=rng.randrange(10 ** 6)))
        if rng.random() < 0.9:
            ops.append(train())
        for _ in range(times(rng.choice([1, 2, 3, 4]))):
            x = rng.random()
            if x < 0.45:
                n = rng.choice(sorted(valid))
                op = dict(op='set', name=n, value=rng.choice(valid[n]))
                if isinstance(now.get(n), float) and rng.random() < 0.25:
                    op['value'] = now[n] * (1 + 8e-6)      # nearly what is set
                if mutable == n:
                    cur = op['value']
            elif x < 0.55 and mutable and cur is not None and MUTATE.get(next(iter(cur.values()))):
                w = rng.choice(MUTATE[next(iter(cur.values()))])
                cur = dict(cur, **{'with': dict(cur.get('with', {}), **w)})
                op = dict(op='mutate', name=mutable, value=cur, **{'with': w})
            elif x < 0.65 and invalid:
                n = rng.choice(sorted(invalid))
                op = dict(op='bad', name=n, value=rng.choice(invalid[n]))
            elif x < 0.7 and invalid:
                op = dict(op='wrong', name=rng.choice(sorted(invalid)), value=rng.choice(WRONG))
            elif x < 0.75 and kind == 'DIPLS':
                op = dict(op='strategy', name='model_adaption_strategy', value=rng.choice(STRATEGIES))
            elif x < 0.79 and kind in C.ALG_KINDS:
                op = dict(op='defaults')
                cur, now = None, {}
            elif x < 0.87:
                op = train()
            elif kind in C.ALG_KINDS:
                continue
            else:
                op = dict(op=rng.choice(reads(kind)), data=use_data(rng, kind, d))
            if op['op'] in ('set', 'bad') and rng.random() < 0.3:
                if op['op'] == 'set' and mutable == op['name']:
                    cur = None
                op['fault'] = dict(mode='line', exc='KeyboardInterrupt')
            ops.append(op)
            if op['op'] == 'set':
                now[op['name']] = op['value'] if not op.get('fault') else None
            if kind not in C.ALG_KINDS and rng.random() < 0.6:
                ops.append(dict(op=rng.choice(reads(kind)), data=use_data(rng, kind, d)))
        if kind in C.ALG_KINDS:
            ops.append(dict(op='train', data=dict(d, seed=rng.randrange(10 ** 6))))
        else:
            ops += [dict(op=o, data=use_data(rng, kind, d)) for o in reads(kind)]
        return dict(kind=kind, params=params, ops=ops, probe=dict(d, seed=rng.randrange(10 ** 6)))

    def resolve(self, scn, rng):
        params, conf = dict(scn['params']), None
        for op in scn['ops']:
            if op.get('fault'):
                f = pick_fault(rng, op['fault'], _dry, scn['kind'], params, conf, op)
                if f:
                    op['fault'] = f
                else:
                    del op['fault']
            if op['op'] in ('set', 'mutate') and not op.get('fault'):
                params[op['name']] = op['value']
                conf = None
            elif op['op'] == 'defaults':
                params, conf = {}, None
            elif op['op'] == 'train':
                conf = op['data']
        return scn

    def execute(self, scn):
        kind = scn['kind']
        alg = kind in C.ALG_KINDS
        got = isolated(_run, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        memo = {}

        def fresh(params, conf, op=None, probe=None):
            key = json.dumps([params, conf, op, probe], sort_keys=True)
            if key not in memo:
                memo[key] = isolated(_fresh, kind, params, conf, op, probe)
            return memo[key]

        P = dict(scn['params'])
        confs = [None]        # states the object may be in: trained/configured on this, or not at all
        v, nontrivial, hist, weak = None, False, [], False

        def refusing(rec):
            if weak and [o for o in refuse_ops(kind) if rec['probe'][o][0] != 'x'] == []:
                return True      # interrupted while the model was being discarded: parts may still be readable
            return not [o for o in refuse_ops(kind) if rec['probe'][o][0] != 'x'] and \
                not (kind in ('PCA', 'FastICA') and [x for n, x in rec['probe']['attrs'][1]
                                                     if x is not None and not isinstance(x, str)]) and \
                not (kind == 'PCA' and rec['probe']['coefficients'][1] is not None)

        for op, rec in zip(scn['ops'], got['log']):
            o, out = op['op'], rec['out']
            hist.append([o, op.get('name'), json.dumps(op.get('value')), out[0], rec['fired']])
            what = '%s.%s = %s' % (kind, op.get('name'), json.dumps(op.get('value')))
            weak = bool(rec['fired']) or (weak and o in ('set', 'bad', 'wrong') and out[0] == 'x')
            if o in ASSIGN:
                nontrivial = nontrivial or confs != [None]
                if o == 'strategy':
                    if out[0] == 'x':
                        v = viol('valid-rejected', 'C11:%s:valid-rejected' % kind, '%s is rejected' % what)
                        break
                    confs = [None, confs[0]] if confs != [None] else [None]
                elif o == 'defaults':
                    P, confs = {}, [None]
                    if out[0] == 'x':
                        v = viol('valid-rejected', 'C11:%s:valid-rejected' % kind, '%s: initialize() fails' % kind)
                        break
                elif o in ('set', 'mutate'):
                    Q = dict(P, **{op['name']: op['value']})
                    if out[0] == 'x' and not rec['fired']:
                        v = viol('valid-rejected', 'C11:%s:valid-rejected' % kind, '%s is rejected (%s)' % (what, out[1]))
                        break
                    new, old = fresh(Q, None)['params'], fresh(P, None)['params']
                    if rec['fired']:
                        if C.same(rec['params'], new) and not (C.same(new, old) and P.get(op['name']) == op['value']):
                            if C.same(new, old):      # indistinguishable by reading: either may be in force
                                break
                            bump(probes, 'interrupted-with-new-value')
                            P = Q
                            confs = [None] if alg else [None] + [c for c in confs if c is not None]
                        else:
                            bump(probes, 'interrupted-with-old-value')
                            confs = [None] + [c for c in confs if c is not None]
                    else:
                        same_value = P.get(op['name'], '?') == op['value'] or C.same(new, old) and not (
                            isinstance(op['value'], dict) and {'kernel', 'fun', 'base'} & set(op['value']))
                        P = Q
                        if alg:
                            confs = [None] if not same_value else [None] + [c for c in confs if c is not None]
                        else:
                            confs = [None] + [c for c in confs if c is not None]
                elif o == 'bad':
                    if out[0] == 'v':
                        v = viol('invalid-accepted', 'C11:%s:%s:invalid-accepted' % (kind, op['name']),
                                 '%s is accepted silently' % what)
                        break
                    bump(probes, 'invalid-rejected')
                elif out[0] == 'v':
                    break     # wrong type accepted: nothing is promised about it
                else:
                    bump(probes, 'wrong-type-rejected')
            elif o == 'train':
                if alg:
                    w = fresh(P, op['data'])
                    ok, wok = trained(out), trained(w['train'])
                    if ok != wok:
                        v = viol('retrain', 'C11:%s:retrain' % kind,
                                 '%s with parameters %s: training ends with %r, on a new object with %r' %
                                 (kind, json.dumps(P), out, w['train']))
                        break
                    confs = [op['data']] if ok else [None]
                elif kind not in STATELESS:
                    w = fresh(P, op['data'])
                    if (out[0] == 'x') != bool(w.get('impossible')):
                        v = viol('retrain', 'C11:%s:retrain' % kind, '%s: configuring ends with %r, on a new object '
                                 'with %r' % (kind, out, w['train']))
                        break
                    confs = [op['data']] if out[0] == 'v' else [None] + confs
            else:
                keep, wants = [], []
                for c in confs:
                    w = fresh(P, c, op)
                    if w.get('impossible'):
                        continue
                    wants.append(w['read'])
                    if C.same(out, w['read']):
                        keep.append(op['data'] if c is None and out[0] == 'v' else c)
                if not keep:
                    v = viol('old-value-used', 'C11:%s:old-value-used' % kind,
                             '%s after %s: %s answers %s; a new object with parameters %s answers %s' %
                             (kind, [h[:4] for h in hist[:-1]], o, C.brief(out), json.dumps(P),
                              [C.brief(w) for w in wants]))
                    break
                confs = keep
            # parameters
            w = fresh(P, None)['params']
            if not C.same(rec['params'], w):
                v = viol('parameters', 'C11:%s:parameters' % kind, '%s after %s: parameters are %s, expected %s' %
                         (kind, [h[:4] for h in hist], json.dumps(rec['params']), json.dumps(w)))
                break
            # model
            if alg:
                ok = []
                for c in confs:
                    if c is None:
                        if refusing(rec):
                            ok.append(None)
                    elif not C.diff_keys(fresh(P, c, None, scn['probe'])['probe'], rec['probe']):
                        ok.append(c)
                if not ok:
                    stale = [c for c in confs if c is not None]
                    if stale:
                        msg = 'the model changed: %s' % C.diff_keys(fresh(P, stale[0], None, scn['probe'])['probe'],
                                                                    rec['probe'])
                    else:
                        msg = 'the old model is still offered: %s' % \
                            [n for n in rec['probe'] if rec['probe'][n][0] == 'v']
                    v = viol('stale-model' if not stale else 'model-changed', 'C11:%s:model' % kind,
                             '%s after %s: %s' % (kind, [h for h in hist], msg))
                    break
                confs = ok[:1] if len(ok) > 1 and ok[0] is not None else ok[-1:]
        return result(v, len(got['log']), faults, [digest([kind, hist])] if nontrivial else [], probes,
                      digest([hist, [r.get('probe') for r in got['log']]]))


PROP = C11()
