"""C05: decomposition queries describe the matrix as it is now."""
import numpy as np

from . import catalog as C
from . import faults as F
from . import matops as MO
from .base import *


def start(d):
    """The matrices a history begins with."""
    o = MO.operands(d)
    C.L.load()
    return [C.M(o['S']), C.M(o['A'] if d.get('rect') else o['S'] @ o['S'].T)]


def apply(slots, op):
    m = slots[op['m'] % len(slots)]
    if op['do'] == 'edit':
        return MO.EDITS[op['op']](m, op['a'])
    if op['do'] == 'bad':
        return MO.BAD_EDITS[op['op']](m, op['a'])
    if op['do'] == 'derive':
        return MO.DERIVE[op['op']](m)
    if op['do'] == 'read':
        return {'str': lambda: str(m), 'norm': lambda: m.norm2(), 'inverse': lambda: m.inverse(),
                'pinv': lambda: m.pseudo_inverse(), 'eq': lambda: m == slots[0]}[op['op']]()
    return MO.QUERIES[op['op']](m)


def _run(scn):
    slots = start(scn['data'])
    log, fired = [], []
    for op in scn['ops']:
        m = slots[op['m'] % len(slots)]
        before = np.array(m.data)
        out, f = F.attempt(lambda: apply(slots, op), op.get('fault'))
        if f:
            fired.append(['fault:' + op['fault']['exc'], f])
        rec = dict(op=op['op'], do=op['do'], how=out[0], fired=f)
        if op['do'] == 'query':
            rec['contents'] = before
            rec['out'] = ['v', MO.obs(out[1])] if out[0] == 'v' else out
        log.append(rec)
        if out[0] == 'v' and op['do'] in ('query', 'derive') and isinstance(out[1], C.L.Matrix):
            slots.append(out[1])
    return dict(log=log, fired=fired)


def _ref(items):
    """Each query on a new matrix with the recorded contents."""
    C.L.load()
    keep, outs = [], []
    for contents, q in items:
        m = C.L.Matrix(np.array(contents, copy=True))
        keep.append(m)
        out = C.outcome(lambda: MO.QUERIES[q](m))
        outs.append(['v', MO.obs(out[1])] if out[0] == 'v' else out)
    return outs


def _dry(scn, j):
    slots = start(scn['data'])
    for op in scn['ops'][:j]:
        out, _ = F.attempt(lambda: apply(slots, op), op.get('fault'))
        if out[0] == 'v' and op['do'] in ('query', 'derive') and isinstance(out[1], C.L.Matrix):
            slots.append(out[1])
    op = scn['ops'][j]
    return F.dry(lambda: apply(slots, op), op['fault']['mode'])


class C05(Prop):
    id = 'C05'
    traits = ('long',)
    quick_runs = 12400
    thorough_runs = 80000
    time_unit = 'matrix operations executed'
    rule = ('one run = a random history of queries, in-place edits, rejected edits, derived matrices and edits of '
            'returned matrices, with numeric failures and interrupts injected; every query is compared with the same '
            'query on a new matrix with the same contents; non-trivial = a query was answered after an edit')
    distinct_measure = 'distinct (operation sequence with targets, outcomes, fault sites)'

    def scenario(self, rng, i, tier):
        d = dict(seed=rng.randrange(10 ** 6), n=rng.randint(2, 4), p=rng.randint(2, 4),
                 v=rng.choice(MO.VARIANTS))
        if rng.random() < 0.3:
            d['rect'] = 1
        if rng.random() < 0.25:
            d['scale'] = rng.choice([1e-9, 1e-9, 1e-4, 1e7])
        fault = rng.random() < 0.5
        ops = []
        focus = rng.choice(['mix', 'mix', 'tight'])
        fav_q = rng.choice(sorted(MO.QUERIES))
        fav_e = rng.choice(sorted(MO.EDITS))
        for _ in range(times(rng.randint(4, 14 if tier == 'quick' else 24))):
            do = rng.choice(['query'] * 5 + ['edit'] * 4 + ['bad', 'derive', 'read'])
            tab = {'query': MO.QUERIES, 'edit': MO.EDITS, 'bad': MO.BAD_EDITS, 'derive': MO.DERIVE,
                   'read': ('str', 'norm', 'inverse', 'pinv', 'eq')}[do]
            op = dict(do=do, op=rng.choice(sorted(tab)), m=rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5]))
            if focus == 'tight':
                op['m'] = rng.choice([0, 0, 0, 2])
                if do == 'query' and rng.random() < 0.6:
                    op['op'] = fav_q
                if do == 'edit' and rng.random() < 0.6:
                    op['op'] = fav_e
            if do in ('edit', 'bad'):
                op['a'] = [rng.randrange(8), rng.randrange(8), round(rng.uniform(-3, 3), 3),
                           round(rng.uniform(0.2, 2), 3)]
                if d.get('scale') and rng.random() < 0.7:
                    op['a'][2:] = [x * d['scale'] for x in op['a'][2:]]
            if fault and rng.random() < 0.25:
                op['fault'] = rand_fault(rng, 'Matrix')
            ops.append(op)
        ops.append(dict(do='query', op=rng.choice(sorted(MO.QUERIES)), m=0))
        ops.append(dict(do='query', op=fav_q, m=0))
        return dict(kind='Matrix', data=d, ops=ops)

    def resolve(self, scn, rng):
        for j, op in enumerate(scn['ops']):
            if op.get('fault'):
                f = pick_fault(rng, op['fault'], _dry, scn, j)
                if f:
                    op['fault'] = f
                else:
                    del op['fault']
        return scn

    def execute(self, scn):
        got = isolated(_run, scn)
        faults, probes = {}, {}
        for n, s in got['fired']:
            bump(faults, n)
        qs = [r for r in got['log'] if r['do'] == 'query']
        want = isolated(_ref, [(r['contents'], r['op']) for r in qs]) if qs else []
        v = None
        for r, w in zip(qs, want):
            if r['fired'] and r['how'] == 'x':
                continue    # the injected failure surfaced
            bump(probes, 'query-answered' if w[0] == 'v' else 'query-refused')
            if not C.same(r['out'], w, 1e-7, 0.0):
                v = viol('stale', 'C05:%s' % r['op'],
                         'query %s on a matrix with contents %s returned %s, a new matrix with the same contents '
                         'gives %s' % (r['op'], C.brief(r['contents']), C.brief(r['out']), C.brief(w)))
                break
        edited = False
        nontrivial = False
        for r in got['log']:
            edited = edited or r['do'] in ('edit', 'bad')
            nontrivial = nontrivial or (edited and r['do'] == 'query')
        sig = [[r['do'], r['op'], r['how'], r['fired']] for r in got['log']] + [o['m'] for o in scn['ops']]
        return result(v, len(got['log']), faults, [digest(sig)] if nontrivial else [], probes,
                      digest([sig, [r.get('out') for r in got['log']]]))


PROP = C05()
