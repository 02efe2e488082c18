"""C03: transformations stick to the data they were configured on."""
from . import catalog as C
from . import faults as F
from .base import *


def _op(kind, obj, op):
    o = op['op']
    if o == 'configure':
        m = C.given('a0', C.make_data(kind, op['data'])['X'])
        return lambda: obj.configure(m) and None
    if o == 'reset':
        return obj.reset
    if o in ('set', 'bad'):
        return lambda: C.set_param(obj, op['name'], op['value'])
    data = C.make_data(kind, op['data'])
    return lambda: C.read(kind, obj, o, data)


def _subject(scn):
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    C.reuse(scn.get('reuse'))
    outs, fired = [], []
    for op in scn['ops']:
        out, f = F.attempt(_op(kind, obj, op), op.get('fault'))
        outs.append([out, f])
        if f:
            fired.append(['fault:' + op['fault']['exc'], f])
    return dict(outs=outs, fired=fired)


def _oracle(kind, params, conf, op):
    """A new transformation in the given state, then one operation."""
    obj = C.create(kind, params)
    if conf is not None:
        if F.attempt(_op(kind, obj, dict(op='configure', data=conf)), None)[0][0] == 'x':
            return ['impossible', None]       # no object can be in this state
    return F.attempt(_op(kind, obj, op), None)[0]


def _dry(kind, params, conf, op):
    obj = C.create(kind, params)
    if conf is not None:
        obj.configure(C.M(C.make_data(kind, conf)['X']))
    return F.dry(_op(kind, obj, op), op['fault']['mode'])


def reads(kind):
    return [o for o in C.read_ops(kind) if not (kind == 'RowNorm' and o == 'means')]


class C03(Prop):
    id = 'C03'
    traits = ('scale', 'long', 'rows', 'wide', 'square', 'values')
    quick_runs = 2200
    thorough_runs = 40000
    time_unit = 'public calls on the simulated object'
    rule = ('one run = one transformation and a random history of configure/transform/inverse/reset/parameter calls '
            'with numeric failures and interrupts injected; every answer is compared with a new object in one of the '
            'states the life cycle allows; non-trivial = at least two data sets or a fault or a parameter change')
    distinct_measure = 'distinct (transformation, operation and outcome sequence, fault sites)'

    def scenario(self, rng, i, tier):
        kind = C.TRA_KINDS[i % len(C.TRA_KINDS)]
        if rng.random() < 0.3:
            kind = rng.choice(C.TRA_LEARNING)
        params = rand_params(rng, kind, rng.choice([0.0, 0.5]))
        base = rand_data(rng, kind)
        pool = []
        for _ in range(3):
            d = rand_data(rng, kind, 'const' if rng.random() < 0.2 else '')
            d['p'] = base['p']
            if kind == 'MSC':
                d['n'] = base['n']
            if rng.random() < 0.08:
                d['p'] = base['p'] + 1
            pool.append(d)
        valid, invalid = C.params_of(kind), C.invalid_of(kind)
        ops = []
        for _ in range(times(rng.choice([2, 3, 4, 5, 6, 8]))):
            x = rng.random()
            if x < 0.22:
                op = dict(op='configure', data=rng.choice(pool))
                if rng.random() < 0.12:
                    op['data'] = dict(op['data'], v=rng.choice(['nan', 'inf', 'neg']))
            elif x < 0.8:
                op = dict(op=rng.choice(reads(kind)), data=rng.choice(pool))
            elif x < 0.88 and valid and kind != 'MSC':
                n = rng.choice(sorted(valid))
                op = dict(op='set', name=n, value=rng.choice(valid[n]))
            elif x < 0.93 and invalid:
                n = rng.choice(sorted(invalid))
                op = dict(op='bad', name=n, value=rng.choice(invalid[n]))
            else:
                op = dict(op='reset')
            if op['op'] not in ('set', 'bad', 'reset') and rng.random() < 0.25:
                op['fault'] = rand_fault(rng, kind, ('call', 'call', 'line'))
            ops.append(op)
        # what is left in force at the end
        for o in reads(kind):
            ops.append(dict(op=o, data=rng.choice(pool)))
        scn = dict(kind=kind, params=params, ops=ops)
        if rng.random() < 0.3:
            scn['reuse'] = 1
        return scn

    def resolve(self, scn, rng):
        conf, params = None, dict(scn['params'])
        for op in scn['ops']:
            if op['op'] == 'set':
                params[op['name']] = op['value']
                conf = None
            elif op['op'] == 'reset':
                conf = None
            if op.get('fault'):
                f = pick_fault(rng, op['fault'], _dry, scn['kind'], params, conf, op)
                if f:
                    op['fault'] = f
                else:
                    del op['fault']
            if op['op'] == 'configure' and not op.get('fault'):
                conf = op['data']
            elif conf is None and op['op'] in ('transform', 'inverse') and not op.get('fault'):
                conf = op['data']
        return scn

    def execute(self, scn):
        kind = scn['kind']
        got = isolated(_subject, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        params = dict(scn['params'])
        cand = [None]                 # configurations the object may be in (None: not configured)
        memo = {}

        def want(conf, op):
            key = str((sorted(params.items(), key=str), conf, op['op'], op.get('data')))
            if key not in memo:
                memo[key] = isolated(_oracle, kind, params, conf, op)
            return memo[key]

        def uniq(l):
            out = []
            for x in l:
                if x not in out:
                    out.append(x)
            return out

        v = None
        log = []
        for j, (op, (out, f)) in enumerate(zip(scn['ops'], got['outs'])):
            o = op['op']
            log.append([o, out[0], f])
            bump(probes, o + (':failed' if out[0] == 'x' else ':ok'))
            if o == 'reset':
                cand = [None]
            elif o == 'set':
                if out[0] == 'v':
                    params[op['name']] = op['value']
                    cand = [None]
            elif o == 'bad':
                pass
            elif o == 'configure':
                ref = want(None, op)
                if out[0] == 'v':
                    if ref[0] == 'x':
                        v = viol('configure', 'C03:%s:configure' % kind,
                                 '%s: step %d configures on data a new object rejects (%s)' % (kind, j, ref[1]))
                        break
                    cand = [op['data']]
                else:
                    if not f and ref[0] == 'v':
                        v = viol('configure', 'C03:%s:configure' % kind,
                                 '%s: step %d fails to configure (%s), a new object does not' % (kind, j, out[1]))
                        break
                    cand = uniq(cand + [None] + ([op['data']] if f else []))
            else:
                auto = o in ('transform', 'inverse')
                if out[0] == 'x' and f:
                    if auto and None in cand:
                        cand = uniq(cand + [op['data']])
                    continue
                if o == 'means' and None in cand and any(
                        g and q.get('fault', {}).get('mode') == 'line'
                        for q, (_, g) in zip(scn['ops'][:j], got['outs'])):
                    continue     # an interrupt may leave one of the two statistics readable
                ok = []
                for c in cand:
                    ref = want(c, op)
                    if ref[0] == out[0] and (out[0] == 'x' or C.same(ref[1], out[1])):
                        if auto and c is None:
                            ok.append(op['data'])
                            if out[0] == 'x':
                                ok.append(None)
                        else:
                            ok.append(c)
                if not ok:
                    v = viol('answer', 'C03:%s:%s' % (kind, o),
                             '%s: step %d (%s after %s) answers %s; a new object configured on the data in force '
                             'answers %s' % (kind, j, o, [l[0] for l in log[:-1]], C.brief(out[1]),
                                             [C.brief(want(c, op)[1]) for c in cand]))
                    break
                cand = uniq(ok)
            if kind == 'RowNorm':
                cand = [None]
        datasets = len({str(op.get('data')) for op in scn['ops'] if op.get('data')})
        nontrivial = got['fired'] or datasets > 1 or any(op['op'] == 'set' for op in scn['ops'])
        return result(v, len(scn['ops']), faults, [digest([kind, log])] if nontrivial else [], probes, digest(got))


PROP = C03()
