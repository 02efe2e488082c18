"""C14: a copied or unpickled object continues like the original."""
import copy
import io
import pickle
import sys

import numpy as np

from . import catalog as C
from . import faults as F
from . import matops as MO
from . import zygote as Z
from .base import *

CLS = {'DIPLS': 'DIPLSraw'}          # the class itself: the subclass of the catalogue cannot be found by name
HOWS = ['p2', 'p3', 'p4', 'p5', 'python', 'deep']


class Refuses(io.RawIOBase):
    """A stream on which write number k fails."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def writable(self):
        return True

    def write(self, b):
        self.n += 1
        if self.n - 1 == self.k:
            self.fired = True
            raise self.exc
        return len(b)


class Memo(dict):
    """The memo of a deep copy: every object that is copied is looked up in it; look-up number k fails."""

    def __init__(self, k, exc):
        super().__init__()
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def get(self, *a):
        self.n += 1
        if self.n - 1 == self.k:
            self.fired = True
            raise self.exc
        return super().get(*a)


EXC = {'OSError': lambda: OSError(28, 'No space left on device'), 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt}


def take(obj, how):
    """The object as bytes (pickle) or as a copy."""
    if how == 'deep':
        return copy.deepcopy(obj)
    if how == 'copy':
        return obj.copy()
    s = io.BytesIO()
    if how == 'python':
        pickle._Pickler(s, 4).dump(obj)
    else:
        pickle.Pickler(s, int(how[1:])).dump(obj)
    return s.getvalue()


def back(x):
    return pickle.loads(x) if isinstance(x, bytes) else x


def fail(obj, how, k, exc):
    """An attempt to copy the object that fails at step k; tells whether it did."""
    e = EXC[exc]()
    try:
        if how == 'deep':
            sink = Memo(k, e)
            copy.deepcopy(obj, sink)
        else:
            sink = Refuses(k, e)
            pickle._Pickler(sink, 4 if how == 'python' else int(how[1:])).dump(obj)
    except BaseException as x:  # noqa
        if x is not e:
            return 'other: %s' % type(x).__name__
    return sink.fired


def make(scn):
    if scn['kind'] == 'Matrix':
        return C.M(MO.operands(scn['data'])['S'])
    return C.create(scn['kind'], scn['params'], CLS.get(scn['kind']))


def inner(kind, obj, a):
    """Changes a part that the object owns, in place."""
    if kind == 'KernelPLS':
        k = obj.kernel
        if hasattr(k, 'gamma'):
            k.gamma = C.L.real(a)
    elif kind == 'OPLS':
        obj.base_PLS.num_components = 1 + int(a * 10) % 2
    elif kind == 'MSC':
        obj.correction.ranges = [(0.0, 1.0 + a), (1.0 + a, 9.0)]
        if obj.correction.prefilter is not None:
            obj.correction.prefilter.reset()
    elif kind == 'MultiFilter':
        obj.filters.reverse()


def scribble(x):
    """The caller overwrites what an operation returned."""
    if isinstance(x, C.L.Matrix):
        x.data[...] = 55.5


def step(scn, obj, op):
    """One call -> outcome."""
    kind, o = scn['kind'], op['op']
    if kind == 'Matrix':
        if o == 'edit':
            r = C.outcome(lambda: MO.EDITS[op['name']](obj, op['arg']))
            return [r[0], r[1] if r[0] == 'x' else None]
        if o == 'query':
            return C.outcome(lambda: MO.obs(MO.QUERIES[op['name']](obj)))
        if o == 'derive':
            return C.outcome(lambda: MO.obs(MO.DERIVE[op['name']](obj)))
        if o == 'eq':
            return C.outcome(lambda: [obj == obj.copy(), obj == C.M(np.array(obj.data)), obj.is_vector()])
    if o == 'prepare':
        r = C.outcome(lambda: C.prepare(kind, obj, C.make_data(kind, op['data'])))
        return [r[0], r[1] is None if r[0] == 'v' else r[1]]
    if o == 'use':
        return C.outcome(lambda: C.read(kind, obj, op['name'], C.make_data(kind, op['data'])))
    if o == 'set':
        r = C.outcome(lambda: C.set_param(obj, op['name'], op['value']))
        return [r[0], C.read_params(kind, obj)]
    if o == 'reset':
        return C.outcome(lambda: obj.reset())
    if o == 'defaults':
        return C.outcome(lambda: obj.initialize())
    if o == 'inner':
        return C.outcome(lambda: inner(kind, obj, op['arg']))
    if o == 'scribble':
        def go():
            for n in obj.get_matrix_names() if hasattr(obj, 'get_matrix_names') else ():
                scribble(obj.get_matrix(n))
            for n in C.ATTRS.get(kind, ()):
                scribble(getattr(obj, n, None))
        return C.outcome(go)
    if o == 'debug':
        obj.debug = op['value']
        return None
    raise ValueError(op)


def final(scn, obj):
    if scn['kind'] == 'Matrix':
        out = {'contents': ['v', C.arr(obj)]}
        for q in sorted(MO.QUERIES):
            out[q] = C.outcome(lambda: MO.obs(MO.QUERIES[q](obj)))
        return out
    out = C.probe(scn['kind'], obj, C.make_data(scn['kind'], scn['data']))
    out['parameters'] = C.read_params(scn['kind'], obj)
    return out


def begin(env, wiggle=None):
    C.L.load()
    Z.enter(env)
    C.WIGGLE = None if wiggle is None else np.random.Generator(np.random.PCG64([wiggle, 14]))


def leg(scn, j, blob):
    """Life number j of the object: from the bytes of the last one (or new), to its own bytes."""
    begin(scn['env'])
    part = scn['legs'][j]
    try:
        obj = make(scn) if blob is None else back(blob)
    except Exception as e:  # noqa
        return [], ['x', 'on loading ' + type(e).__name__], None, []
    outs = [step(scn, obj, op) for op in part['ops']]
    fired = []
    f = part.get('fault')
    if f:
        fired.append(fail(obj, f['how'], f['k'], f['exc']))
    if j == len(scn['legs']) - 1:
        return outs, None, final(scn, obj), fired
    b = C.outcome(lambda: take(obj, part['how']))
    return outs, b, None, fired


def straight(scn, wiggle):
    """The same life without any copying."""
    begin({}, wiggle)
    obj = make(scn)
    outs = [[step(scn, obj, op) for op in part['ops']] for part in scn['legs']]
    return outs, final(scn, obj)


def both(scn):
    """Original and copy side by side."""
    begin(scn['env'])
    obj = make(scn)
    first = [step(scn, obj, op) for op in scn['legs'][0]['ops']]
    fired = []
    f = scn['legs'][0].get('fault')
    if f:
        fired.append(fail(obj, f['how'], f['k'], f['exc']))
    try:
        objs = [obj, back(take(obj, scn['legs'][0]['how']))]
    except Exception as e:  # noqa
        return first, [['x', type(e).__name__]], None, fired
    todo = [list(p['ops']) for p in scn['legs'][1:3]]
    outs = [[], []]
    for t in scn['order'] + [0] * 20 + [1] * 20:
        if todo[t]:
            outs[t].append(step(scn, objs[t], todo[t].pop(0)))
    return first, outs, [final(scn, o) for o in objs], fired


class C14(Prop):
    id = 'C14'
    traits = ('scale', 'long', 'rows', 'used', 'square', 'values')
    quick_runs = 4900
    thorough_runs = 60000
    time_unit = 'public calls on the simulated objects'
    rule = ('one run = the life of one object, cut into two to four parts; at each cut the object is pickled and goes '
            'on in a new process of another environment after its old process ended, or it is copied and original '
            'and copy go on side by side in one process; some attempts to copy fail part-way; every answer is '
            'compared with the same life without any copying; non-trivial = the object had a history before the cut')
    distinct_measure = 'distinct (class, history, cuts, ways of copying, faults)'
    stubs = ['clocks, process number, system randomness and fresh memory (simulated)']
    assumptions = ['results that a relative change of 1e-12 in the data moves visibly are not compared',
                   'one BLAS thread']

    def start(self):
        Z.start()

    def scenario(self, rng, i, tier):
        kinds = C.ALL_KINDS + ['Matrix'] * 5 + ['KernelPLS', 'OPLS', 'MSC', 'NIPALS']
        kind = kinds[i % len(kinds)]
        if kind == 'Matrix':
            params, d = None, dict(seed=rng.randrange(10 ** 6), n=rng.randint(3, 5), p=rng.randint(3, 5),
                                   v=rng.choice(MO.VARIANTS))
        else:
            params = rand_params(rng, kind, rng.choice([0.0, 0.4, 0.8]))
            if kind == 'MultiFilter':
                params = dict(pipe=rng.randrange(len(C.PIPES)))
            if kind == 'OPLS' and params['base_PLS']['base'] == 'DIPLS':
                params['base_PLS'] = C.BASES[0]
            d = rand_data(rng, kind, rng.choice(['', '', '', '', 'const', 'rows', 'nan']) if kind in C.ALG_KINDS
                          else rng.choice(['', '', '', 'const']))
        scn = dict(kind=kind, params=params, data=d, side=int(rng.random() < 0.5), env=dict(seed=rng.randrange(1, 9999)))
        n = 3 if scn['side'] else rng.choice([2, 2, 2, 3, 4])
        scn['legs'] = []
        for j in range(n):
            lo = 1 if j == 0 and rng.random() < 0.9 else 0
            part = dict(ops=[self.op(rng, kind, d, j, k) for k in range(times(rng.randint(lo, 4)))],
                        how=rng.choice(HOWS if scn['side'] else HOWS[:-1]),
                        flavour=rng.choice(['ref', 'h1', 'h2', 'h3']))
            if kind == 'Matrix' and scn['side'] and rng.random() < 0.3:
                part['how'] = 'copy'
            if rng.random() < 0.3:
                part['fault'] = dict(how=rng.choice(HOWS), k=int(rng.choice([1, 8, 60]) * rng.random()),
                                     exc=rng.choice(sorted(EXC)))
            scn['legs'].append(part)
        if scn['side']:
            scn['order'] = [rng.randrange(2) for _ in range(12)]
        for name, prob, vals in (('junk', 0.3, [1]), ('poison', 0.3, ['nan', 'huge', 'one']), ('clock', 0.3, ['on'])):
            if rng.random() < prob:
                scn['env'][name] = rng.choice(vals)
        return scn

    def op(self, rng, kind, d, j, k):
        if kind == 'Matrix':
            o = rng.choice(['edit', 'edit', 'query', 'query', 'query', 'derive', 'eq'])
            if o == 'eq':
                return dict(op=o)
            if o == 'derive':
                return dict(op=o, name=rng.choice(sorted(MO.DERIVE)))
            if o == 'query':
                return dict(op=o, name=rng.choice(sorted(MO.QUERIES)))
            return dict(op=o, name=rng.choice(sorted(MO.EDITS)), arg=[rng.randrange(5), rng.randrange(5),
                                                                     rng.uniform(-2, 2), rng.uniform(0.2, 1)])
        r = rng.random()
        if j == 0 and k == 0 and r < 0.75:
            return dict(op='prepare', data=d)
        if r < 0.2 and kind not in C.KERNEL_KINDS:
            return dict(op='prepare', data=rng.choice([d, dict(d, seed=rng.randrange(10 ** 6)),
                                                       rand_data(rng, kind, plain=True)]))
        if r < 0.4 and kind != 'MultiFilter' and kind != 'MSC' and C.params_of(kind):
            bad = C.invalid_of(kind)
            vals = bad if bad and rng.random() < 0.2 else C.params_of(kind)
            n = rng.choice(sorted(vals))
            v = rng.choice(vals[n])
            if n == 'base_PLS' and v['base'] == 'DIPLS':
                v = C.BASES[0]
            return dict(op='set', name=n, value=v)
        if r < 0.45 and kind not in C.FIL_KINDS:
            return dict(op='reset' if kind not in C.ALG_KINDS or rng.random() < 0.6 else 'defaults')
        if r < 0.55 and kind in ('KernelPLS', 'OPLS', 'MSC', 'MultiFilter'):
            return dict(op='inner', arg=round(rng.uniform(0.1, 1.5), 2))
        if r < 0.6 and kind in C.ALG_KINDS:
            return dict(op=rng.choice(['scribble', 'debug']), value=rng.random() < 0.5)
        return dict(op='use', name=rng.choice(C.read_ops(kind)), data=use_data(rng, kind, d))

    def lives(self, scn):
        """The lives to compare with: name -> scenario without copying."""
        if not scn['side']:
            return [scn]
        a, b, c = scn['legs']
        return [dict(scn, legs=[a, b]), dict(scn, legs=[a, c])]

    def execute(self, scn):
        faults, probes, bad = {}, {}, []
        lives = self.lives(scn)
        want = [Z.remote('ref', straight, s, None) for s in lives]
        got = [[[], None] for _ in lives]
        fired, refused = [], None
        if scn['side']:
            first, outs, fin, fired = Z.remote(scn['legs'][0]['flavour'], both, scn)
            if fin is None:
                refused = [scn['legs'][0]['how'], outs[0][1]]
            else:
                got = [[[first, outs[t]], fin[t]] for t in (0, 1)]
                bump(probes, 'side by side: ' + scn['legs'][0]['how'])
        else:
            blob = None
            for j, part in enumerate(scn['legs']):
                o, b, fin, fr = Z.remote(part['flavour'], leg, scn, j, blob)
                got[0][0].append(o)
                fired += fr
                if fin is not None:
                    got[0][1] = fin
                elif b[0] == 'x':
                    refused = [scn['legs'][max(j - (not o and 'on loading' in str(b[1])), 0)]['how'], b[1]]
                    break
                else:
                    blob = b[1]
                    bump(probes, 'moved: ' + part['how'])
                    bump(faults, 'process-ends:' + part['flavour'])
        v = None
        for f in fired:
            if f:
                bump(faults, 'copy-fails' if f is True else 'copy-fails-otherwise')
        if refused:
            v = viol('refused', 'C14:%s:%s' % (scn['kind'], refused[0]), '%s: copying it (%s) raised %s' %
                     (scn['kind'], refused[0], refused[1]))
        else:
            for t in range(len(lives)):
                bad += [[t] + k for k in self.differ(lives[t], want[t], got[t])]
            if bad:
                wig = [[Z.remote('ref', straight, s, k) for k in range(4)] for s in lives]
                kept = []
                for b in bad:
                    x = self.pick(want[b[0]], b[1:])
                    ys = [self.pick(w, b[1:]) for w in wig[b[0]]]
                    if any(not C.same(x, y, 1e-8, 1e-12) for y in ys):
                        bump(probes, 'ill-conditioned')
                    else:
                        kept.append(b)
                bad = kept
        if bad:
            t, b = bad[0][0], bad[0][1:]
            who = ('the original' if t == 0 else 'the copy') if scn['side'] else 'the restored object'
            hows = [p['how'] for p in scn['legs'][:1 if scn['side'] else -1]]
            v = viol('diverges', 'C14:%s:%s' % (scn['kind'], who.split()[-1]),
                     '%s: after %s (%s) %s answers %s with %s instead of %s' %
                     (scn['kind'], [[o['op'] for o in p['ops']] for p in lives[t]['legs']], hows, who, b,
                      C.brief(self.pick(got[t], b)), C.brief(self.pick(want[t], b))))
        sig = [scn['kind'], scn['params'], scn['legs'], scn['side'], scn.get('order')]
        n = sum(len(p['ops']) for p in scn['legs'])
        return result(v, n, faults, [digest(sig)] if scn['legs'][0]['ops'] else [], probes, digest([want, got]))

    def differ(self, scn, want, got):
        """Places at which two lives give different answers."""
        out = []
        for j, part in enumerate(scn['legs']):
            for k in range(len(part['ops'])):
                if not C.same(want[0][j][k], got[0][j][k]):
                    out.append([0, j, k])
        return out + [[1, k] for k in C.diff_keys(want[1], got[1])]

    @staticmethod
    def pick(life, path):
        if path[0] == 0:
            return life[0][path[1]][path[2]]
        return life[1].get(path[1])

    def shrink(self, scn):
        from .main import drop_each
        legs = scn['legs']
        if not scn['side'] and len(legs) > 2:
            for j in range(len(legs)):
                yield dict(scn, legs=legs[:j] + legs[j + 1:])
        for j, part in enumerate(legs):
            def put(x):
                return dict(scn, legs=legs[:j] + [x] + legs[j + 1:])
            for ops in drop_each(part['ops']):
                yield put(dict(part, ops=ops))
            if part.get('fault'):
                yield put({k: v for k, v in part.items() if k != 'fault'})
            if part['flavour'] != 'ref':
                yield put(dict(part, flavour='ref'))
        for k in list(scn['env']):
            yield dict(scn, env={n: x for n, x in scn['env'].items() if n != k})
        if scn['params']:
            for n in list(scn['params']):
                if n not in C.base_of(scn['kind']) and scn['kind'] != 'MultiFilter':
                    yield dict(scn, params={k: v for k, v in scn['params'].items() if k != n})


PROP = C14()
