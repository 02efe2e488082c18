"""C10: training stops within its iteration limit."""
import json
import os
import sys

import numpy as np

from . import catalog as C
from . import faults as F
from .base import *

LIMITED = ['KernelPLS', 'NIPALS', 'CCARegression', 'SparsePLS', 'PRM', 'FastICA', 'OPLS']
OTHER = [k for k in C.ALG_KINDS if k not in LIMITED]
NPFUNCS = [('linalg', n) for n in ('norm', 'svd', 'eig', 'inv', 'pinv', 'lstsq', 'solve')] + \
    [('', n) for n in ('matmul', 'dot', 'divide', 'sqrt', 'mean', 'std', 'median', 'multiply')]
MARGIN = 5
TESTS_MARGIN = 2.2
# executed library lines: BOUND[kind] = (a, b): a + b * components * (limit + 1), the most seen on 12 x 6 data when this
# check was written; the verdict allows MARGIN times as many
BOUND = {
    'KernelPLS': (7400, 640), 'NIPALS': (2800, 330), 'CCARegression': (3200, 350), 'SparsePLS': (13700, 410),
    'OPLS': (8300, 730), 'FastICA': (950, 1350), 'PRM': (5000, 4800), 'YGradientEPO': (8700, 1), 'DIPLS': (3800, 1),
    'GLSW': (700, 1), 'SIMPLS': (2200, 1), 'PCA': (8900, 1), 'EPO': (700, 1), 'CCAFilter': (1400, 1),
    'PLS1': (1300, 1), 'VCPLS': (2600, 1), 'YGradientGLSW': (8700, 1)}


class OverBudget(BaseException):
    pass


class Tol(float):
    """
    The tolerance handed to the algorithm: an ordinary number that counts how often it is compared.  Every convergence
    test of an iteration compares with it, so the count measures iterations whatever the code around them looks like.
    """
    __array_ufunc__ = None       # numpy scalars and arrays leave the comparison to this class
    count, limit = 0, None

    def _tick(self):
        Tol.count += 1
        if Tol.limit is not None and Tol.count > Tol.limit:
            raise OverBudget('convergence test number %d' % Tol.count)

    def __lt__(self, o):
        self._tick()
        return float(self) < o

    def __gt__(self, o):
        self._tick()
        return float(self) > o

    def __le__(self, o):
        self._tick()
        return float(self) <= o

    def __ge__(self, o):
        self._tick()
        return float(self) >= o


def width(params):
    """Sequential searches of FastICA: one for all components together, or one each (at most 5 columns)."""
    if params.get('algorithm') == {'alg': 'PARALLEL'}:
        return 1
    return params.get('num_components', 5) if params.get('whiten', True) else 5


def tests_of(kind, params):
    """Most convergence tests the iteration limit allows (None: not counted)."""
    l, k = limit_of(kind, params) + 1, params.get('num_components', 1)
    if kind in ('KernelPLS', 'NIPALS', 'CCARegression'):
        return k * l
    if kind == 'SparsePLS':
        return k * (k + 1) // 2 * l
    if kind == 'FastICA':
        return l * width(params)
    if kind == 'OPLS':
        return l
    if kind == 'PRM':
        return l * (l + 1)
    return None


class Clock:
    """Logical clock: source lines executed inside the library."""

    def __init__(self, budget):
        self.n, self.budget = 0, budget

    def _g(self, frame, event, arg):
        if F._is_lib(frame.f_code):
            return self._l
        return None

    def _l(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n > self.budget:
                raise OverBudget('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._l


class Poison:
    """Numeric operations whose results can silently be replaced; calls are counted over all of them."""

    def __init__(self, spec):
        self.n, self.spec, self.sites, self.fired = 0, spec, [], None

    def spoil(self, value):
        x = {'nan': np.nan, 'inf': np.inf, 'zero': 0.0}[self.spec['value']]
        how = self.spec.get('how', 'all')
        if isinstance(value, tuple):
            return (self.spoil(value[0]),) + value[1:]
        if isinstance(value, C.L.Matrix):
            value.data = self.spoil(value.data)
            return value
        if isinstance(value, np.ndarray) and value.dtype.kind in 'fc' and value.ndim:
            value = np.array(value)
            if how == 'all':
                value[...] = x
            else:
                value.reshape(-1)[:1] = x
            return value
        if isinstance(value, (float, np.floating)):
            return type(value)(x)
        return value

    def wrap(self, name, fn):
        def wrapper(*a, **k):
            out = fn(*a, **k)
            if not isinstance(out, (tuple, np.ndarray, float, np.floating, C.L.Matrix)):
                return out
            i = self.n
            self.n += 1
            if self.spec is None:
                f = sys._getframe(1)
                self.sites.append('%s<%s:%d' % (name, f.f_code.co_name, f.f_lineno))
            elif i == self.spec.get('k') or (self.spec.get('from') and i >= self.spec['k']):
                self.fired = name
                return self.spoil(out)
            return out
        return wrapper

    def install(self):
        for mod, n in NPFUNCS:
            m = np.linalg if mod else np
            if isinstance(getattr(m, n), np.ufunc):
                continue
            setattr(m, n, self.wrap(n, getattr(m, n)))
        skip = ('copy', 'transpose', 'get', 'get_from_vector')
        for n, f in list(vars(C.L.Matrix).items()):
            if callable(f) and not n.startswith('_') and n not in skip and not isinstance(f, (staticmethod, classmethod)):
                setattr(C.L.Matrix, n, self.wrap(n, f))


def limit_of(kind, params):
    if kind == 'OPLS':
        return params['base_PLS']['with'].get('max_iter', 500) if params['base_PLS']['base'] in ('NIPALS', 'KernelPLS') else 0
    return params.get('max_iter', 0)


def budget(kind, params, margin=MARGIN):
    a, b = BOUND[kind]
    k = params.get('num_components', 1)
    if kind == 'FastICA':
        k = width(params)
    return int(margin * (a + b * k * (limit_of(kind, params) + 1)))


def _run(scn, budget_):
    C.L.load()
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    data = C.make_data(kind, scn['data'])
    args = C.train_args(kind, data)
    p = None
    if scn.get('poison'):
        p = Poison(scn['poison'])
        p.install()
    if 'tol' in scn['params']:
        obj.tol = Tol(scn['params']['tol'])
    elif kind == 'OPLS' and scn['params']['base_PLS']['base'] in ('NIPALS', 'KernelPLS'):
        base = obj.base_PLS
        base.tol = Tol(scn['params']['base_PLS']['with']['tol'])
        obj.base_PLS = base
    clock = Clock(budget_)
    t = tests_of(kind, scn['params'])
    Tol.count, Tol.limit = 0, None if t is None or budget_ > 10 ** 8 else int(TESTS_MARGIN * t) + 8
    np.seterr(all='ignore')
    sys.settrace(clock._g)
    try:
        out = ['v', C.train(kind, obj, data, args)]
    except OverBudget as e:
        out = ['over', str(e)]
    except Exception as e:  # noqa
        out = ['x', type(e).__name__]
    finally:
        sys.settrace(None)
    return dict(out=out, n=clock.n, tests=Tol.count, fired=p.fired if p else None)


def _dry(scn):
    C.L.load()
    kind = scn['kind']
    obj = C.create(kind, scn['params'])
    data = C.make_data(kind, scn['data'])
    args = C.train_args(kind, data)
    p = Poison(None)
    p.install()
    np.seterr(all='ignore')
    try:
        C.train(kind, obj, data, args)
    except Exception:  # noqa
        pass
    return p.sites


class C10(Prop):
    id = 'C10'
    quick_runs = 8600
    thorough_runs = 60000
    time_unit = 'source lines executed inside the library (the logical clock)'
    rule = ('one run = one training with a random iteration limit, tolerance and (often degenerate) data, in which a '
            'numeric operation may silently yield NaN, infinity or zero; the training must end within the line budget '
            'given by limit and size; non-trivial = the limit, the data or a fault prevented plain convergence')
    distinct_measure = 'distinct (class, limit, data variant, poisoned operation, outcome, executed lines)'
    assumptions = ['budget = %d times the largest line count seen when the check was written' % MARGIN,
                   'data of at most 12 x 8 values']

    def scenario(self, rng, i, tier):
        kind = rng.choice(OTHER) if i % 5 == 4 else LIMITED[(i // 5 + i) % len(LIMITED)]
        params = rand_params(rng, kind, 0.5)
        lim = rng.choice([0, 1, 2, 3, 5, 10, 20, 40])
        tol = rng.choice([0.0, 0.0, 0.0, 1e-9, 1e-3, 1e9])
        if 'max_iter' in C.params_of(kind):
            params['max_iter'] = max(lim, 1) if kind == 'PRM' else lim
            params['tol'] = tol
        if kind == 'OPLS' and rng.random() < 0.7:
            params['base_PLS'] = {'base': 'NIPALS', 'with': {'num_components': 1, 'max_iter': lim, 'tol': tol}}
        elif kind == 'OPLS':
            params['base_PLS'] = {'base': 'KernelPLS', 'with': {'num_components': 1, 'max_iter': lim, 'tol': tol}}
        d = rand_data(rng, kind, rng.choice(['', '', '', '', 'nan', 'nany', 'inf', 'const', 'coll', 'outlier', 'zero',
                                             'zeroy', 'big']), plain=True)
        scn = dict(kind=kind, params=params, data=d)
        if rng.random() < 0.6:
            scn['poison'] = dict(value=rng.choice(['nan', 'nan', 'nan', 'inf', 'zero']),
                                 how=rng.choice(['all', 'all', 'one']))
            if rng.random() < 0.4:
                scn['poison']['from'] = 1
        return scn

    def resolve(self, scn, rng):
        if scn.get('poison'):
            try:
                sites = isolated(_dry, scn)
            except Exception:  # noqa
                sites = []
            k = F.pick(rng, sites)
            if k is None:
                del scn['poison']
            else:
                scn['poison']['k'] = k
        return scn

    def execute(self, scn):
        kind, params = scn['kind'], scn['params']
        limit = limit_of(kind, params)
        b = budget(kind, params)
        got = isolated(_run, scn, b)
        faults, probes, v = {}, {}, None
        if got['fired']:
            bump(faults, 'poison:' + scn['poison']['value'])
        bump(probes, 'ended-' + {'v': 'trained', 'x': 'exception', 'over': 'over'}[got['out'][0]])
        if b and got['n'] > b * 0.5:
            bump(probes, 'used-more-than-half-of-budget')
        if got['out'][0] == 'over':
            v = viol('runaway', 'C10:%s' % kind,
                     '%s, iteration limit %d, data %s%s: still training after %d library lines (budget) and %d convergence tests, at %s' %
                     (kind, limit, scn['data'].get('v') or 'plain',
                      ', %s from %s' % (scn['poison']['value'], got['fired']) if got['fired'] else '', b, got['tests'],
                      got['out'][1]))
        nontrivial = bool(got['fired']) or bool(scn['data'].get('v')) or params.get('tol') == 0.0
        sig = [kind, limit, scn['data'].get('v'), got['fired'], got['out'], got['n']]
        return result(v, got['n'], faults, [digest(sig)] if nontrivial else [], probes, digest(got))

    def shrink(self, scn):
        if scn.get('poison'):
            yield {k: v for k, v in scn.items() if k != 'poison'}
            if scn['poison'].get('from'):
                yield dict(scn, poison={k: v for k, v in scn['poison'].items() if k != 'from'})
        if scn['data'].get('v'):
            yield dict(scn, data={k: v for k, v in scn['data'].items() if k != 'v'})
        for c in super().shrink(scn):
            yield c
        for l in (0, 1, 3):
            if 'max_iter' in scn['params'] and scn['params']['max_iter'] > l:
                yield dict(scn, params=dict(scn['params'], max_iter=l))


PROP = C10()


def calibrate(runs=4000):
    """Prints the largest line counts per kind (used to fill BOUND)."""
    from .main import build
    import collections
    rows = collections.defaultdict(list)
    tests, most = {}, {}
    for i in range(runs):
        scn = build(PROP, 99, i, 'quick')
        g = isolated(_run, scn, 10 ** 9)
        k = scn['params'].get('num_components', 1)
        if scn['kind'] == 'FastICA':
            k = width(scn['params'])
        rows[scn['kind']].append((limit_of(scn['kind'], scn['params']), k, g['n']))
        t = tests_of(scn['kind'], scn['params'])
        if t is not None:
            tests[scn['kind']] = max(tests.get(scn['kind'], 0), g['tests'] / t)
            most[scn['kind']] = max(most.get(scn['kind'], 0), g['tests'])
    print({k: (round(v, 2), most[k]) for k, v in tests.items()})
    for kind, r in rows.items():
        a = max([n for l, k, n in r if l == 0] or [0])
        b = max([(n) / (k * (l + 1)) for l, k, n in r if l >= 10] or [0])
        worst = max(n / (a + b * k * (l + 1)) for l, k, n in r)
        print('    %r: (%d, %d),   # worst %.2f of %d' % (kind, a, b + 1, worst, len(r)))
    sys.stdout.flush()


if __name__ == '__main__':
    from .main import check_import
    check_import()
    calibrate(int(sys.argv[1]))
