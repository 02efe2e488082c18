"""C13: results depend on parameters and data only, not on the environment of the call."""
import gc
import io
import os
import threading

import numpy as np

from . import catalog as C
from . import matops as MO
from . import zygote as Z
from .base import *

KNOBS = ('clock', 'err', 'print', 'warn', 'gc', 'junk', 'nocwd', 'noconsole', 'vars', 'poison', 'thread', 'layout',
         'debug', 'seed', 'reuse', 'twice', 'before')
NO_DEBUG = set(C.KERNEL_KINDS) | {'MultiFilter'}


# on shapes n x p with n != p
REFUSED = {
    'mul': lambda o: o['A'].mul(o['B']), 'add': lambda o: o['A'].add(o['R']), 'sub': lambda o: o['A'].sub(o['r']),
    'add_v': lambda o: o['A'].add(o['c']), 'mul_elementwise': lambda o: o['A'].mul_elementwise(o['R']),
    'div_elementwise': lambda o: o['A'].div_elementwise(o['r']), 'dot': lambda o: o['A'].vector_dot(o['A']),
    'dot_length': lambda o: o['r'].vector_dot(o['c']), 'row_scale': lambda o: o['A'].scale_by_row_vector(o['R']),
    'column_scale': lambda o: o['A'].scale_by_column_vector(o['B']), 'as_real': lambda o: o['A'].as_real(),
    'clip': lambda o: o['A'].clip(1.0, -1.0), 'axis': lambda o: o['A'].sum(4), 'mean_axis': lambda o: o['A'].mean(3),
    'vector': lambda o: o['A'].where_vector(lambda x: x > 0), 'diagonal': lambda o: o['A'].vector_to_diagonal(),
    'eigen': lambda o: o['A'].get_eigenvalues(), 'trace': lambda o: o['A'].trace(), 'hash': lambda o: hash(o['A']),
    'get': lambda o: o['A'].get(99, 0), 'column': lambda o: o['A'].get_column(99), 'row': lambda o: o['A'].get_row(99),
    'rows': lambda o: o['A'].get_rows([0, 99]), 'concat': lambda o: o['A'].concat_along_rows(o['R']),
    'solve': lambda o: C.L.helper.solve(o['S'], o['c']), 'from_vector': lambda o: o['A'].get_from_vector(0),
    'range3': lambda o: C.L.Matrix(np.zeros((2, 2, 2))), 'equal': lambda o: C.L.helper.equal(o['A'], o['R']),
    'kernel': lambda o: C.L.kernel.RBFKernel().apply_vector(o['r'], o['c']),
    'empty': lambda o: C.L.helper.read(io.StringIO(''), False, ','),
    'header': lambda o: C.L.helper.read(io.StringIO('a,b\n'), True, ','),
    'words': lambda o: C.L.helper.read(io.StringIO('1,b\n2,3\n'), False, ','),
    'spectrum': lambda o: C.L.factory.create_spectrum([1, 2], [1.0]),
    'untrained': lambda o: C.L.classes['PLS1']().predict(o['A']),
    'untrained_t': lambda o: C.L.classes['GLSW']().transform(o['A']),
    'unsaved': lambda o: C._serial(C.L.classes['SIMPLS']()),
    'ica': lambda o: C.L.classes['FastICA']().reconstruct(),
}


def work_item(w, env):
    """One piece of work on fresh objects -> observations by name."""
    o = w['op']
    out = {}
    if o == 'use':
        kind = w['kind']
        obj = C.create(kind, w['params'])
        if env.get('debug') and kind not in NO_DEBUG:
            obj.debug = True
        data = C.make_data(kind, w['data'])
        res = C.outcome(lambda: C.prepare(kind, obj, data))
        out['training'] = [res[0], res[1] is None if res[0] == 'v' else res[1]]
        out.update(C.probe(kind, obj, data))
        out['parameters'] = C.read_params(kind, obj)
    elif o == 'matrix':
        ms = {k: C.M(v) for k, v in MO.operands(w['data']).items()}
        for n in w['reads']:
            out[n] = C.outcome(lambda: MO.obs(MO.READS[n](ms)))
        for n, a in w.get('edits', []):
            e = C.outcome(lambda: MO.EDITS[n](ms['S'], a))
            out['edit ' + n] = [e[0], C.arr(ms['S'])]
            for q in w['queries']:
                out['%s after %s' % (q, n)] = C.outcome(lambda: MO.obs(MO.QUERIES[q](ms['S'])))
    elif o == 'refused':
        # calls that cannot be answered: the refusal, too, is a result
        for n in w['calls']:
            ms = {k: C.M(v) for k, v in MO.operands(w['data']).items()}
            out[n] = C.outcome(lambda: MO.obs(REFUSED[n](ms)))
        for kind, name, value in w['params']:
            obj = C.create(kind, C.base_of(kind))
            out['%s.%s' % (kind, name)] = C.outcome(lambda: C.set_param(obj, name, value))
            out['%s parameters' % kind] = C.read_params(kind, obj)
        for n, a in w['edits']:
            m = C.M(MO.operands(w['data'])['S'])
            out['edit ' + n] = C.outcome(lambda: MO.BAD_EDITS[n](m, a))
            out['edited ' + n] = C.arr(m)
    elif o == 'make':
        f = C.L.factory
        n, p, s = w['n'], w['p'], w['seed']
        z = C.M(np.zeros((n, p)))
        for name, fn in dict(eye=lambda: f.eye(n, p), zeros=lambda: f.zeros(n, p), filled=lambda: f.filled(n, p, 2.5),
                             row=lambda: f.from_row([1.5] * p), column=lambda: f.from_column([0.5] * n),
                             range=lambda: f.range(n, p, 1), rand=lambda: f.rand(n, p, s), rand0=lambda: f.rand(n, p),
                             randn=lambda: f.randn(n, p, s), randn0=lambda: f.randn(n, p),
                             rand_like=lambda: f.rand_like(z, s), randn_like=lambda: f.randn_like(z, s),
                             zeros_like=lambda: f.zeros_like(z), filled_like=lambda: f.filled_like(z, 1.25)).items():
            out[name] = C.outcome(lambda: C.arr(fn()))
    elif o == 'text':
        m = C.M(MO.operands(w['data'])['A'])
        s = io.StringIO()
        out['write'] = C.outcome(lambda: C.L.helper.write(m, s, w['header'], w['sep'], w['dec']))
        out['text'] = ['v', s.getvalue()]
        out['read'] = C.outcome(lambda: C.arr(C.L.helper.read(io.StringIO(s.getvalue()), w['header'], w['sep'])))
        path = os.path.join(os.environ['SIM_SCRATCH'], 'c13-%d.csv' % os.stat('/proc/self').st_ino)
        try:
            out['save'] = C.outcome(lambda: C.L.helper.write(m, path, w['header'], w['sep'], w['dec']))
            with open(path, 'rb') as f:
                out['bytes'] = ['v', f.read().decode('latin-1')]
            out['load'] = C.outcome(lambda: C.arr(C.L.helper.read(path, w['header'], w['sep'])))
        finally:
            if os.path.exists(path):
                os.unlink(path)
        out['shown'] = ['v', str(m)]
        # a file that others wrote: lines of different lengths, cells that are no numbers
        other = '\n'.join(w['sep'].join(row) for row in w.get('cells', [])) + '\n'
        out['foreign'] = C.outcome(lambda: C.arr(C.L.helper.read(io.StringIO(other), w['header'], w['sep'])))
    elif o == 'state':
        kind = w['kind']
        if kind == 'Matrix':
            m = C.M(MO.operands(w['data'])['A'])
            b = C._serial(m)
            out['state'] = ['v', b]
            out['restored'] = C.outcome(lambda: C.arr(C.L.Matrix.deserialise_from_bytes(b))
                                        if hasattr(C.L.Matrix, 'deserialise_from_bytes')
                                        else C.arr(C.L.Matrix.deserialise(io.BytesIO(b))))
        else:
            obj = C.create(kind, w['params'])
            data = C.make_data(kind, w['data'])
            res = C.outcome(lambda: C.prepare(kind, obj, data))
            out['training'] = [res[0], res[1] is None if res[0] == 'v' else res[1]]
            b = C.outcome(lambda: C._serial(obj))
            out['state'] = b
            if b[0] == 'v':
                back = C.outcome(lambda: type(obj).deserialise(io.BytesIO(b[1])))
                out['restored'] = [back[0], back[1] if back[0] == 'x' else None]
                if back[0] == 'v':
                    out['again'] = C.outcome(lambda: C._serial(back[1]))
                    out['transform'] = C.outcome(lambda: C.read(kind, back[1], 'transform', data))
    else:
        raise ValueError(o)
    return out


def perform(works, env, wiggle):
    """All the work in this process, under this environment."""
    C.L.load()
    Z.enter(env)
    C.LAYOUT = env.get('layout')
    C.WIGGLE = None if wiggle is None else np.random.Generator(np.random.PCG64([wiggle, 5]))
    C.reuse(env.get('reuse'))
    out = {}

    def go():
        for w in env.get('before') or []:
            work_item(w, env)
        for j, w in enumerate(works):
            if env.get('twice'):
                work_item(w, env)
            for k, v in work_item(w, env).items():
                out['%d %s' % (j, k)] = v
            if env.get('gc') == 'eager':
                gc.collect()
    if env.get('thread'):
        err = []

        def body():
            try:
                go()
            except BaseException as e:  # noqa
                err.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if err:
            raise err[0]
    else:
        go()
    return out


def moves(a, b):
    """Does a change of the size of rounding errors move this observation?"""
    return not C.same(a, b, 1e-8, 1e-12)


class C13(Prop):
    id = 'C13'
    traits = ('scale', 'rows', 'wide', 'square', 'values')
    quick_runs = 8000
    thorough_runs = 60000
    time_unit = 'pieces of work executed'
    rule = ('one run = up to three pieces of work (train and read an object, configure and use a transformation, matrix '
            'operations and edits, factory matrices, text files, serialisation) performed in a reference environment '
            'and in one whose hash seed, interpreter options, memory contents, clock, random streams, console, '
            'directory, thread, garbage collector, warnings, numpy settings and matrix layouts are chosen by the '
            'seed; non-trivial = the work succeeded and at least one setting differed')
    distinct_measure = 'distinct (work, environment flavour, settings that differ)'
    stubs = ['clocks, process number, system randomness and fresh memory (simulated)']
    assumptions = ['results that a relative change of 1e-12 in the data moves visibly are not compared',
                   'one BLAS thread']

    def start(self):
        Z.start()

    def scenario(self, rng, i, tier):
        kinds = C.ALL_KINDS + ['NIPALS', 'KernelPLS', 'FastICA', 'PRM'] + ['+matrix'] * 8 + ['+refused'] * 4 + ['+make'] * 2 + ['+text'] * 3 + ['+state'] * 4
        kind = kinds[i % len(kinds)]
        works = [self.work(rng, kind)]
        while rng.random() < 0.35 and len(works) < 3:
            works.append(self.work(rng, rng.choice(kinds)))
        edits = any(w.get('edits') for w in works)      # read-only matrices cannot be edited
        env = dict(seed=rng.randrange(1, 10 ** 6))
        for name, prob, vals in (('clock', 0.5, ['on', 'jumps', 'jumps']), ('err', 0.3, ['ignore', 'warn']), ('print', 0.3, [1]),
                                 ('warn', 0.3, ['default', 'always']), ('gc', 0.15, ['eager']), ('junk', 0.4, [1]),
                                 ('nocwd', 0.15, [1]), ('noconsole', 0.25, [1, 'tty']), ('thread', 0.25, [1]),
                                 ('poison', 0.6, ['nan', 'huge', 'zero', 'one']), ('debug', 0.25, [1]),
                                 ('layout', 0.4, list('FSNUV') + ([] if edits else ['R'])), ('reuse', 0.1, [1]),
                                 ('twice', 0.15, [1]), ('vars', 0.3, [dict(WAI_DEBUG='1', DEBUG='1', SEED='9',
                                                                          PYTHONHASHSEED='5'), {'*': '1'}, {'*': '0'},
                                                                     {'*': 'true', 'HOME': '/'}])):
            if rng.random() < prob:
                env[name] = rng.choice(vals)
        if env.get('layout') == 'R':
            env.pop('reuse', None)
        if rng.random() < 0.25:
            env['before'] = [self.work(rng, rng.choice([kind] + kinds)) for _ in range(rng.randint(1, 2))]
            if env.get('layout') == 'R' and any(w.get('edits') for w in env['before']):
                del env['layout']
        return dict(kind=kind, works=works, flavour=rng.choice(['ref', 'h1', 'h2', 'h3', 'h1', 'h2', 'h3']), env=env)

    def work(self, rng, kind):
        d = dict(seed=rng.randrange(10 ** 6), n=rng.randint(3, 6), p=rng.randint(3, 5), v=rng.choice(['', 'spd', 'int']))
        if kind == '+matrix':
            w = dict(op='matrix', data=d, reads=rng.sample(sorted(MO.READS), 4))
            if rng.random() < 0.4:
                w['edits'] = [[rng.choice(sorted(MO.EDITS)), [rng.randrange(5), rng.randrange(5), rng.uniform(-2, 2),
                                                             rng.uniform(0.2, 1)]] for _ in range(rng.randint(1, 3))]
                w['queries'] = rng.sample(sorted(MO.QUERIES), 2)
            return w
        if kind == '+refused':
            d['p'] = d['n'] + rng.choice([-1, 1])
            ks = [k for k in C.ALL_KINDS if C.invalid_of(k)]
            params = []
            for k in rng.sample(ks, 4):
                n = rng.choice(sorted(C.invalid_of(k)))
                params.append([k, n, rng.choice(C.invalid_of(k)[n])])
            return dict(op='refused', data=d, calls=rng.sample(sorted(REFUSED), 6), params=params,
                        edits=[[n, [rng.randrange(5), rng.randrange(5), rng.uniform(-2, 2), rng.uniform(0.2, 1)]]
                               for n in rng.sample(sorted(MO.BAD_EDITS), 2)])
        if kind == '+make':
            return dict(op='make', n=rng.randint(1, 5), p=rng.randint(1, 5), seed=rng.choice([0, 1, 42, 99999]))
        if kind == '+text':
            return dict(op='text', data=d, header=rng.random() < 0.5, sep=rng.choice([',', ';', '\t']),
                        dec=rng.choice([-1, 0, 3, 6, 12]),
                        cells=[[rng.choice(['1', '2.5', '-3e2', ' 4 ', '', 'x', 'nan', '7,5', '1_000', 'inf'])
                                for _ in range(rng.choice([3, 3, 2, 4]))] for _ in range(rng.randint(2, 5))])
        if kind == '+state':
            k = rng.choice(C.SERIALISABLE)
            if k == 'Matrix':
                return dict(op='state', kind=k, data=d)
            return dict(op='state', kind=k, params=rand_params(rng, k, 0.4), data=rand_data(rng, k, plain=True))
        params = rand_params(rng, kind, rng.choice([0.0, 0.5, 0.8]))
        if kind == 'MultiFilter':
            params = dict(pipe=rng.randrange(len(C.PIPES)))
        v = ''
        if rng.random() < 0.15:
            v = rng.choice(['rows', 'cols', 'const', 'nan', 'zeroy', 'none'] if kind in C.ALG_KINDS else ['const', 'nan'])
        if params.get('num_components', 0) > 4 and rng.random() < 0.6:
            params['num_components'] = 2
        d = rand_data(rng, kind, v, plain=rng.random() < 0.6)
        if kind in ('NIPALS', 'KernelPLS', 'CCARegression', 'CCAFilter') and rng.random() < 0.5:
            d['m'] = rng.choice([2, 3, 4])
        return dict(op='use', kind=kind, params=params, data=d)

    def execute(self, scn):
        works, env = scn['works'], scn['env']
        want = Z.remote('ref', perform, works, {}, None)
        got = Z.remote(scn['flavour'], perform, works, env, None)
        faults, probes = {}, {}
        bump(faults, 'environment:' + scn['flavour'])
        for k in KNOBS:
            if env.get(k):
                bump(faults, 'setting:' + k)
        for k, x in want.items():
            bump(probes, 'raised' if isinstance(x, list) and x and x[0] == 'x' else 'answered')
        bad = C.diff_keys(want, got)
        v = None
        if bad:
            # is the difference one that rounding errors explain?
            wig = [Z.remote('ref', perform, works, {}, k) for k in range(4)]
            rough = [k for k in bad if not isinstance((want.get(k) or [0, 0])[-1], str)
                     and any(k not in x or moves(want.get(k), x[k]) for x in wig)]
            # what follows an unstable training is unstable
            unstable = {k.split(' ')[0] for k in rough if k.endswith((' training', ' initialised'))}
            bad = [k for k in bad if k not in rough and k.split(' ')[0] not in unstable]
            if rough:
                bump(probes, 'ill-conditioned')
        if bad:
            k = bad[0]
            w = works[int(k.split(' ')[0])]
            name = w.get('kind') or w['op']
            v = viol('environment', 'C13:%s:%s' % (name, k.split(' ', 1)[1]),
                     '%s: %s depends on the environment (%s, %s): %s instead of %s' %
                     (name, [b.split(' ', 1)[1] for b in bad], scn['flavour'],
                      {n: env[n] if n != 'before' else len(env[n]) for n in KNOBS if env.get(n)}, C.brief(got.get(k)), C.brief(want.get(k))))
        sig = [works, scn['flavour'], sorted(n for n in KNOBS if env.get(n))]
        return result(v, len(works), faults, [digest(sig)], probes, digest([want, got]))

    def shrink(self, scn):
        from .main import drop_each
        for works in drop_each(scn['works']):
            if works:
                yield dict(scn, works=works)
        for k in list(scn['env']):
            yield dict(scn, env={n: x for n, x in scn['env'].items() if n != k})
        if scn['flavour'] != 'ref':
            yield dict(scn, flavour='ref')
        for j, w in enumerate(scn['works']):
            def put(x):
                return dict(scn, works=scn['works'][:j] + [x] + scn['works'][j + 1:])
            for key in ('reads', 'edits', 'calls', 'params') if w['op'] != 'use' else ():
                for l in drop_each(w.get(key) or []):
                    yield put(dict(w, **{key: l}))
            if w['op'] == 'use':
                for n in list(w['params']):
                    base = C.base_of(w['kind'])
                    if n not in base and w['kind'] != 'MultiFilter':
                        yield put(dict(w, params={k: x for k, x in w['params'].items() if k != n}))


PROP = C13()
