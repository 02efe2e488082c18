"""C02: a training that did not succeed never leaves a usable half-trained model."""
from . import catalog as C
from . import faults as F
from .base import *

BAD = ['rows', 'cols', 'zero', 'nan', 'nany', 'none', 'zeroy', 'inf', 'one', 'const', 'coll']
# operations that must be refused by an object that is not trained
REFUSE = ('predict', 'transform', 'transform_response', 'reconstruct', 'serial')


def _views(kind, obj, scn):
    """Everything observable, probed with the data of every training of the scenario."""
    return [C.probe(kind, obj, C.make_data(kind, d)) for d in scn['views']]


def _subject(scn):
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    steps, fired, log = 0, [], []
    for d in scn['prior']:
        out, _ = F.attempt(train_fn(kind, obj, d), None)
        log.append(['train', out[0], out[1]])
        steps += 1
    points = []
    for a in scn['attempts']:
        out, f = F.attempt(train_fn(kind, obj, a['data']), a.get('fault'))
        steps += 1
        if f:
            fired.append(['fault:' + a['fault']['exc'], f])
        points.append(dict(out=out, fired=f, views=_views(kind, obj, scn)))
    out, _ = F.attempt(train_fn(kind, obj, scn['retrain']), None)
    points.append(dict(out=out, fired=None, views=_views(kind, obj, scn)))
    return dict(points=points, fired=fired, steps=steps + 1, log=log)


def _fresh(scn, d):
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    res, _ = F.attempt(train_fn(kind, obj, d), None)
    return dict(res=res, views=_views(kind, obj, scn))


def refuses(kind, views, strict):
    """None, or what the object still offers although it is not trained."""
    for v in views:
        if v['initialised'][1]:
            return 'marked trained'
        for op in REFUSE:
            if op == 'transform_response' and kind != 'CCAFilter':
                continue   # an unguarded hook method in the other classes
            if op in v and v[op][0] != 'x':
                return op
        if not strict:
            continue
        for op in ('matrices', 'attrs'):
            if op in v:
                if v[op][0] == 'x':
                    return op + ' query fails'
                for n, m in v[op][1]:
                    if m is not None and not isinstance(m, str):
                        return '%s of %s' % (op, n)
        if 'loadings' in v and (v['loadings'][0] == 'x' or v['loadings'][1][1] is not None):
            return 'loadings'
        if 'coefficients' in v and v['coefficients'] != ['v', None]:
            return 'coefficients'
    return None


def differs(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        bad = C.diff_keys(x, y)
        if bad:
            return '%s: %s vs %s' % (bad, C.brief(x.get(bad[0])), C.brief(y.get(bad[0])))
    return None


class C02(Prop):
    id = 'C02'
    traits = ('scale', 'rows', 'wide', 'square', 'values')
    quick_runs = 4900
    thorough_runs = 50000
    time_unit = 'public calls on the simulated object'
    rule = ('one run = an object, optionally trained before, then one or two trainings that are made to fail (numeric '
            'failure or interrupt injected at a chosen event, or data the algorithm rejects), the object inspected '
            'after each, then a fault-free training; non-trivial = a fault fired or a training was refused')
    distinct_measure = 'distinct (algorithm, prior state, fault site and outcome sequence)'

    def scenario(self, rng, i, tier):
        kind = C.ALG_KINDS[i % len(C.ALG_KINDS)]
        params = rand_params(rng, kind, rng.choice([0.0, 0.3, 0.7]))
        if kind == 'OPLS' and rng.random() < 0.12:
            # a base that cannot be trained with one call: every training has to be refused
            params['base_PLS'] = {'base': 'DIPLS', 'with': {'num_components': 1}}
        prior = [rand_data(rng, kind)] if rng.random() < 0.6 else []
        attempts = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            if rng.random() < 0.3:
                d = rand_data(rng, kind, rng.choice(BAD))
                if prior and rng.random() < 0.5:
                    d = dict(prior[0], v=d['v'])
                attempts.append(dict(data=d))
            else:
                d = rand_data(rng, kind)
                if prior and rng.random() < 0.3:
                    d = dict(d, n=prior[0]['n'], p=prior[0]['p'])
                attempts.append(dict(data=d, fault=rand_fault(rng, kind, ('call', 'call', 'line'))))
        good = [a['data'] for a in attempts if not a['data'].get('v')]
        retrain = rng.choice(good + [rand_data(rng, kind)])
        if retrain.get('s') == 3:
            # an interrupt between recording the domain sizes and the training itself is outside the guarantee
            retrain = dict(retrain, s=0)
        if kind in LOGGING and rng.random() < 0.25:
            # somebody closed the log: the message itself fails
            params = make_logging(rng, kind, {k: v for k, v in params.items() if k not in ('whiten', 'num_components')})
            attempts = [dict(a, fault=dict(mode='log', exc='BrokenPipeError')) for a in attempts]
            for a in attempts:
                if kind in ('NIPALS', 'CCARegression'):
                    a['data'] = dict(a['data'], v=rng.choice(['zeroy', 'zero', 'const', 'coll']))
        views = []
        for d in prior + [a['data'] for a in attempts] + [retrain]:
            if d not in views:
                views.append(d)
        return dict(kind=kind, params=params, prior=prior, attempts=attempts, retrain=retrain, views=views)

    def resolve(self, scn, rng):
        for a in scn['attempts']:
            if a.get('fault'):
                f = pick_fault(rng, a['fault'], dry_train, scn['kind'], scn['params'], a['data'], a['fault']['mode'])
                if f:
                    a['fault'] = f
                else:
                    del a['fault']
        return scn

    def execute(self, scn):
        kind = scn['kind']
        got = isolated(_subject, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        fresh = {}

        def model(d):
            key = str(sorted(d.items()))
            if key not in fresh:
                fresh[key] = isolated(_fresh, scn, d)
            return fresh[key]

        v = None
        old = None
        line = False
        if scn['prior'] and got['log'][0][1] == 'v' and got['log'][0][2] is None:
            old = model(scn['prior'][0])
        sig = [kind, bool(old)]
        for j, (p, a) in enumerate(zip(got['points'], scn['attempts'])):
            what = '%s%s, training on data %r %s' % (
                kind, ' trained before' if old else '', a['data'].get('v') or 'ok',
                'with %s at %s' % (a['fault']['exc'], p['fired']) if p['fired'] else 'without fault')
            sig.append([p['fired'], p['out'][0], str(p['out'][1])[:30]])
            new = model(a['data'])
            if trained(p['out']):
                bump(probes, 'success')
                if not trained(new['res']):
                    v = viol('success', 'C02:%s:false-success' % kind,
                             what + ': reported success, but a fresh object reports %r' % (new['res'],))
                    break
                d = differs(p['views'], new['views'])
                if d or not p['views'][0]['initialised'][1]:
                    v = viol('success', 'C02:%s:incomplete-success' % kind,
                             what + ': reported success, but the model is not the complete new one: %s' %
                             (d or 'not marked trained'))
                    break
                old, line = new, False
                continue
            # an interrupt may leave single matrices behind, which a training refused before it starts does not remove
            line = line or bool(p['fired']) and a['fault']['mode'] == 'line'
            keeps = refuses(kind, p['views'], strict=not line)
            if keeps is None:
                bump(probes, 'refused-after-failure')
                old = None
                continue
            if old is not None and differs(p['views'], old['views']) is None:
                bump(probes, 'old-model-kept')
                continue
            if p['fired'] and trained(new['res']) and differs(p['views'], new['views']) is None:
                bump(probes, 'failed-after-completion')
                old = new
                continue
            v = viol('half-trained', 'C02:%s:half-trained' % kind,
                     what + ' ended with %r; afterwards the object still offers: %s; it is neither the old nor the '
                     'new model' % (p['out'], keeps))
            break
        if v is None:
            p, new = got['points'][-1], model(scn['retrain'])
            if trained(p['out']) != trained(new['res']):
                v = viol('retrain', 'C02:%s:retrain' % kind, '%s: training after the failure ends with %r, on a '
                         'fresh object with %r' % (kind, p['out'], new['res']))
            elif not trained(new['res']) and C.well_posed(kind, scn['params'], scn['retrain']) and not \
                    new["res"][1] in ("LinAlgError", "FloatingPointError"):
                v = viol('refused', 'C02:%s:refuses-valid' % kind,
                         '%s: training without any failure on complete data ends with %r' % (kind, new['res']))
            elif trained(new['res']):
                d = differs(p['views'], new['views'])
                if d:
                    v = viol('retrain', 'C02:%s:retrain' % kind,
                             '%s: training after the failure gives another model than a fresh object: %s' % (kind, d))
        nontrivial = got['fired'] or any(not trained(p['out']) for p in got['points'])
        return result(v, got['steps'], faults, [digest(sig)] if nontrivial else [], probes,
                      digest([got, sorted(fresh)]))

    def shrink(self, scn):
        if len(scn['attempts']) > 1:
            for j in range(len(scn['attempts'])):
                yield dict(scn, attempts=scn['attempts'][:j] + scn['attempts'][j + 1:])
        if scn['prior']:
            yield dict(scn, prior=[])
        for j, a in enumerate(scn['attempts']):
            if a.get('fault') and a['data'].get('v'):
                yield dict(scn, attempts=scn['attempts'][:j] + [dict(data=a['data'])] + scn['attempts'][j + 1:])
        used = scn['prior'] + [a['data'] for a in scn['attempts']] + [scn['retrain']]
        views = [d for d in scn['views'] if d in used]
        if views != scn['views']:
            yield dict(scn, views=views)
        for c in super().shrink(dict(scn)):
            yield c


PROP = C02()
