"""Common parts of the property modules."""
import hashlib
import os
import json
import pickle

from . import catalog as C
from .isolate import isolated
from . import faults as F

REAL_ALL = ['wai.ma (all code of the library, from the working tree)', 'numpy', 'scipy', 'scikit-learn', 'wai.common']


class Prop:
    id = ''
    rule = ''
    time_unit = 'operations executed'
    distinct_measure = ''
    real = REAL_ALL
    stubs = []
    assumptions = ['floating-point results of the same code on the same input agree to 1e-6 relative',
                   'one BLAS thread']
    most = {}                    # {'most': n}: rows at most in such a scenario
    traits = ()                  # unusual scenarios this property wants now and then (see TRAITS)
    quick_runs = 1000
    thorough_runs = 20000

    def start(self):
        """Called once, before the first run."""

    def runs(self, tier):
        return self.quick_runs if tier == 'quick' else self.thorough_runs

    def scenario(self, rng, i, tier):
        raise NotImplementedError

    def resolve(self, scn, rng):
        return scn

    def execute(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        from .main import drop_each
        if 'ops' in scn:
            for ops in drop_each(scn['ops']):
                yield dict(scn, ops=ops)
            for j, op in enumerate(scn['ops']):
                if op.get('fault'):
                    op2 = {k: v for k, v in op.items() if k != 'fault'}
                    yield dict(scn, ops=scn['ops'][:j] + [op2] + scn['ops'][j + 1:])
        if scn.get('params'):
            for n in list(scn['params']):
                if n not in C.base_of(scn['kind']):
                    yield dict(scn, params={k: v for k, v in scn['params'].items() if k != n})
                elif scn['params'][n] != C.base_of(scn['kind'])[n]:
                    yield dict(scn, params=dict(scn['params'], **{n: C.base_of(scn['kind'])[n]}))


def digest(obj):
    return hashlib.sha256(pickle.dumps(obj, protocol=4)).hexdigest()[:16]


def result(violation=None, steps=0, faults=None, sigs=(), probes=None, dig=None, scn=None):
    r = dict(violation=violation, steps=steps, faults=faults or {}, sigs=list(sigs), probes=probes or {})
    if dig is not None:
        r['digest'] = dig
    if scn is not None:
        r['scn'] = scn
    return r


def viol(cls, key, msg):
    return dict(cls=cls, key=key, msg=msg)


def bump(d, k, n=1):
    d[k] = d.get(k, 0) + n


# ---- random pieces ------------------------------------------------------------------------------------------------
# What is special about the scenario being drawn; most have nothing special.
#   scale: all data very small or large     long: a long history     rows: training data of many rows
#   used: data of many rows to use an object on     wide: data of many columns
#   square: training data of as many (or two more) columns as rows     values: special contents
SPECIAL = {'scale': (0.025, [1e-10, 1e-10, 1e-5, 1e5]), 'long': (0.035, [2, 3, 5]), 'rows': (0.015, [70, 130, 300]),
           'used': (0.02, [70, 140, 300, 1100]), 'wide': (0.01, [24, 40, 70, 130]),
           'square': (0.03, [0, 0, 2]), 'values': (0.04, ['int', 'centred', 'dup', 'binary', 'positive', 'sorted', 'one',
                                                                  'mirror'])}
TRAITS = {}


def draw_traits(prop, rng):
    """Decides what is special about the next scenario; from a stream of its own."""
    TRAITS.clear()
    TRAITS.update(prop.most)
    for n in prop.traits:
        prob, values = SPECIAL[n]
        if rng.random() < prob * float(os.environ.get('SIM_SPECIAL', '1')):
            TRAITS[n] = rng.choice(values)
            break


def times(n):
    """Length of a history."""
    return n * TRAITS.get('long', 1)


def special(d, kind, used=False):
    most = TRAITS.get('most', 2000)
    if 'scale' in TRAITS:
        d['sc'] = TRAITS['scale']
    if used and 'used' in TRAITS:
        d['tn' if kind in C.ALG_KINDS else 'n'] = min(TRAITS['used'], 60 if kind in C.KERNEL_KINDS else most)
    if not used and 'rows' in TRAITS and d['seed'] % 2:
        d['n'] = min(TRAITS['rows'], 70 if kind in C.KERNEL_KINDS + ['KernelPLS', 'OPLS'] else most)
    if 'values' in TRAITS:
        d['tw'] = TRAITS['values']
    if not used and 'square' in TRAITS:
        d['p'] = d['n'] + TRAITS['square']
    if not used and 'wide' in TRAITS:
        d['p'] = min(TRAITS['wide'], 40 if kind in C.ALG_KINDS else 130)
    return d


def use_data(rng, kind, d):
    """Other data of the same width to use an object on that was prepared with d."""
    out = dict(d, seed=rng.randrange(10 ** 6))
    if kind in C.ALG_KINDS:
        out['tn'] = rng.choice([4, 4, 1, 2, 9, d['n']])
    elif rng.random() < 0.4:
        out['n'] = rng.choice([1, 1, 2, 3, 5, 24])
    if kind in C.ANY_WIDTH and rng.random() < 0.4:
        out['p'] = rng.randint(5, 10)
    return special(out, kind, True)


def rand_data(rng, kind, v='', plain=False):
    """A data specification for make_data."""
    if kind in C.ALG_KINDS:
        n, p = rng.randint(8, 12), rng.randint(4, 6)
        if kind == 'PRM' and rng.random() < 0.3:
            n, p = 6, 8
        if kind in ('PCA', 'FastICA'):
            n, p = rng.randint(8, 14), rng.randint(3, 5)
    else:
        n, p = rng.randint(6, 10), rng.randint(5, 8)
        if kind == 'MSC':
            n, p = rng.randint(12, 18), rng.randint(2, 4)
    if not plain and rng.random() < 0.06:
        n = rng.choice([1, 2, 3, 40] if kind not in C.ALG_KINDS else [40, 60])
    d = dict(seed=rng.randrange(10 ** 6), n=n, p=p)
    if kind in C.ALG_KINDS and not plain:
        d['tn'] = rng.choice([4, 4, 4, 1, 2, 9, n])
    if kind in ('NIPALS', 'KernelPLS', 'CCARegression', 'CCAFilter') and not plain and rng.random() < 0.5:
        d['m'] = rng.choice([1, 2, 3, 4])
    if kind == 'DIPLS':
        d['s'] = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3])
    if v:
        d['v'] = v
    return special(d, kind)


def rand_params(rng, kind, prob=0.5):
    """Base parameters with some of them varied."""
    out = dict(C.base_of(kind))
    for n, vals in sorted(C.params_of(kind).items()):
        if rng.random() < prob:
            out[n] = rng.choice(vals)
    return out


def rand_fault(rng, kind, modes=('call', 'line')):
    mode = rng.choice(modes)
    if mode == 'line':
        return dict(mode='line', exc='KeyboardInterrupt')
    return dict(mode='call', exc=rng.choice(F.exceptions_for(kind)))


LOGGING = {'FastICA': [dict(num_components=9), dict(whiten=False, num_components=2)], 'NIPALS': [dict(num_components=3)],
           'CCARegression': [dict(num_components=2)], 'SparsePLS': [{}], 'PCA': [{}]}


def make_logging(rng, kind, params):
    """Parameters under which a training of this kind writes log messages."""
    return dict(params, debug=True, **rng.choice(LOGGING[kind]))


def train_fn(kind, obj, d, keep=None):
    """Closure of a training call on its own copies of the data; keep receives the argument matrices."""
    data = C.make_data(kind, d)
    args = C.train_args(kind, data)
    if keep is not None:
        keep.extend(a for a in args if a is not None)
    return lambda: C.train(kind, obj, data, args)


def trained(res):
    return res[0] == 'v' and res[1] is None


def dry_train(kind, params, d, mode):
    obj = C.create(kind, params)
    return F.dry(train_fn(kind, obj, d), mode)


def pick_fault(rng, fault, fn, *args):
    """Completes a fault specification with an event number drawn from a dry run; None if nothing can fail."""
    try:
        sites = isolated(fn, *args)
    except Exception:  # noqa
        return None
    k = F.pick(rng, sites)
    return None if k is None else dict(fault, k=k)
