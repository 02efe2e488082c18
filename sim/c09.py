"""C09: matrix files are written and read completely or the failure is reported."""
import io
import os
import shutil

import numpy as np

from . import catalog as C
from . import faults as F
from . import simfs
from .base import *
from .c08 import attempt, in_scratch

SEPS = [',', ';', '\t', ' ', '|', '::', ', ', '\x1f', '\x1e', '\x0b', '\x0c', '\u2028']


def matrix(d):
    r = np.random.RandomState(d['seed'])
    a = r.standard_normal((d['n'], d['p'])) * 10.0 ** r.randint(-2, 4, size=(1, d['p']))
    v = d.get('v')
    if v == 'special':
        for x in (np.nan, np.inf, -np.inf, -0.0, 0.0):
            a.flat[r.randint(a.size)] = x
    elif v == 'tiny':
        a *= 1e-150
    elif v == 'huge':
        a *= 1e200
    elif v == 'int':
        a = np.round(a)
    elif v == 'zero':
        a[:] = 0.0
    return a


class Failing:
    """A text stream of the caller that fails at its k-th line."""

    def __init__(self, inner, k):
        self.inner, self.left, self.hit, self.closed = inner, k, False, False

    def _tick(self):
        if self.left == 0:
            self.hit = True
            raise OSError(5, 'simulated: stream failed')
        self.left -= 1

    def write(self, s):
        self._tick()
        return self.inner.write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def __iter__(self):
        return self

    def __next__(self):
        self._tick()
        line = self.inner.readline()
        if not line:
            raise StopIteration
        return line

    def readline(self, *a):
        self._tick()
        return self.inner.readline(*a)

    def readlines(self, *a):
        return list(self)

    def read(self, n=-1):
        if n is not None and n >= 0:
            self._tick()
            return self.inner.read(n)
        return ''.join(self)

    def flush(self):
        self.inner.flush()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---- files to be read ---------------------------------------------------------------------------------------------
def file_text(scn):
    """A rectangular numeric file as another program would have written it."""
    a = matrix(scn['data'])
    r = np.random.RandomState(scn['data']['seed'] + 1)
    fmts = dict(repr=lambda x: repr(float(x)), sci=lambda x: '%.17e' % x, plus=lambda x: '%+.17g' % x,
                pad=lambda x: ' %r ' % float(x), mixed=None)
    names = [n for n in sorted(fmts) if n != 'mixed']
    if ' ' in scn['sep'] or scn['sep'] == '\t':
        names.remove('pad')
    rows = []
    for row in a:
        cells = []
        for x in row:
            f = scn['fmt'] if scn['fmt'] in names else names[r.randint(len(names))]
            cells.append(fmts[f](x))
        rows.append(scn['sep'].join(cells))
    if scn['header']:
        rows.insert(0, {'plain': scn['sep'].join('col%d' % (j + 1) for j in range(a.shape[1])), 'odd': 'some header',
                        'numeric': scn['sep'].join('1' for _ in range(a.shape[1] + 2)), 'empty': '', 'page': 'page 1\x0cpage 2',
                        'utf8': scn['sep'].join(['größe'] * a.shape[1])}[scn['head']])
    nl = scn['nl']
    return nl.join(rows) + (nl if scn['end'] else ''), a


def same_exact(a, b):
    return a is not None and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def near(a, b):
    """Parsed exactly up to the last bit."""
    return a is not None and a.shape == b.shape and np.allclose(a, b, rtol=1e-15, atol=0, equal_nan=True)


def text_wrong(text, a, scn):
    """Structural check of written text, independent of the library."""
    lines = text.split('\n')
    if lines[-1] != '':
        return 'the last line is not terminated'
    lines = lines[:-1]
    if scn['header']:
        if not lines or lines[0].split(scn['sep']) != ['col%d' % (j + 1) for j in range(a.shape[1])]:
            return 'wrong header %r' % lines[:1]
        lines = lines[1:]
    if len(lines) != a.shape[0]:
        return '%d rows instead of %d' % (len(lines), a.shape[0])
    dec, sci = scn['dec'], scn['sci']
    for i, l in enumerate(lines):
        cells = l.split(scn['sep'])
        if len(cells) != a.shape[1]:
            return 'row %d has %d cells instead of %d' % (i, len(cells), a.shape[1])
        for j, c in enumerate(cells):
            try:
                x = float(c)
            except ValueError:
                return 'cell %d,%d is %r' % (i, j, c)
            y = a[i, j]
            if np.isnan(y) and np.isnan(x) or x == y:
                continue
            if sci:
                tol = abs(y) * 10.0 ** -dec if dec >= 0 else 0.0
            else:
                tol = 10.0 ** -dec * 0.501 + abs(y) * 1e-14 if dec >= 0 else 0.0
            if not abs(x - y) <= tol:
                return 'cell %d,%d is %r for %r' % (i, j, c, y)
    return None


# ---- runs ---------------------------------------------------------------------------------------------------------
def _write_call(scn, m, dest):
    kw = {} if scn.get('defaults') else dict(scientific=scn['sci'])
    return lambda: C.L.helper.write(m, dest, scn['header'], scn['sep'], scn['dec'], **kw)


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def raw(name):
    if not os.path.isfile(name):
        return None
    with open(name, 'rb') as f:
        return f.read()


def _run(scn, root, record=False):
    C.L.load()
    os.chdir(root)
    plan = [] if record else scn.get('plan') or []
    fault = None if record else scn.get('fault')
    fs = simfs.SimFS(root, plan, scn.get('buf'))
    res = {}
    k = scn.get('k') if not record else None
    k = 10 ** 9 if k is None else k
    how = scn['how']
    if scn['op'] == 'write':
        a = matrix(scn['data'])
        m = C.M(a)
        s = io.StringIO()
        _write_call(scn, C.M(a), s)()
        res['text'] = s.getvalue()
        if scn.get('old') is not None:
            put('m.csv', b'old;' * scn['old'])
        res['old'] = raw('m.csv')
        if scn.get('edited'):
            C.outcome(lambda: m.get_eigenvalues() if m.is_square() else m.svd_U())
        with fs:
            if how == 'name':
                res['out'], res['handles'], res['hit'] = attempt(fs, _write_call(scn, m, 'm.csv'), fault)
            else:
                fs.hold = True
                if how == 'failing':
                    inner = io.StringIO()
                    st = Failing(inner, k)
                elif how == 'stringio':
                    st = io.StringIO()
                else:
                    st = open('m.csv', 'a' if scn.get('old') is not None else 'w')
                if how != 'failing':
                    st.write('prior\n')
                fs.hold = False
                res['out'], res['handles'], res['hit'] = attempt(fs, _write_call(scn, m, st), fault)
                res['open'] = not st.closed
                if how == 'failing':
                    res['failed'], res['content'] = st.hit, inner.getvalue()
                elif how == 'stringio':
                    res['content'] = st.getvalue() if res['open'] else None
                else:
                    res['fin'] = attempt(fs, st.close, None)[0][0]
        res['file'] = raw('m.csv')
        res['m'] = C.arr(m)
        res['a'] = a
        if not fs.dead and not record and how == 'name':
            fs2 = simfs.SimFS(root, [], scn.get('buf'))
            with fs2:
                res['again'] = attempt(fs2, _write_call(scn, m, 'm.csv'), None)[0][0]
                res['file2'] = raw('m.csv')
                if scn['dec'] == -1 and not scn['sci']:
                    o = attempt(fs2, lambda: C.arr(C.L.helper.read('m.csv', scn['header'], scn['sep'])), None)[0]
                    res['back'] = o
    else:
        text, a = file_text(scn)
        put('m.csv', text.encode('utf-8'))
        call = lambda src: (lambda: C.arr(C.L.helper.read(src, scn['header'], scn['sep'])))  # noqa
        with fs:
            if how == 'name':
                res['out'], res['handles'], res['hit'] = attempt(fs, call('m.csv'), fault)
            else:
                fs.hold = True
                if how == 'failing':
                    st = Failing(io.StringIO(text, newline=None), k)
                elif how == 'stringio':
                    st = io.StringIO(text, newline=None)
                else:
                    st = open('m.csv', 'r')
                fs.hold = False
                res['out'], res['handles'], res['hit'] = attempt(fs, call(st), fault)
                res['open'] = not st.closed
                res['failed'] = how == 'failing' and st.hit
        res['file'], res['orig'] = raw('m.csv'), text.encode('utf-8')
        res['a'] = a
        if not record and not fs.dead:
            fs2 = simfs.SimFS(root, [], scn.get('buf'))
            with fs2:
                res['back'] = attempt(fs2, call('m.csv'), None)[0]
    if record:
        return fs.events
    res.update(fired=fs.fired, damaging=fs.damaging(), n=fs.n, dead=fs.dead)
    return res


def _dry_fault(scn, root):
    C.L.load()
    os.chdir(root)
    if scn['op'] == 'write':
        return F.dry(_write_call(scn, C.M(matrix(scn['data'])), 'dry.csv'), scn['fault']['mode'])
    text, _ = file_text(scn)
    put('dry.csv', text.encode('utf-8'))
    return F.dry(lambda: C.L.helper.read('dry.csv', scn['header'], scn['sep']), scn['fault']['mode'])


class C09(Prop):
    id = 'C09'
    quick_runs = 11100
    thorough_runs = 120000
    time_unit = 'storage events'
    rule = ('one run = one write or read of a matrix on simulated storage with a seeded fault plan, followed by the same '
            'call without faults; contents and matrices are compared with the data the harness generated; '
            'non-trivial = a storage fault or interrupt took place')
    distinct_measure = 'distinct (operation, target kind, shape and format, fault kinds with positions, outcome)'
    stubs = ['raw files (fault plan in front of the real file system in a scratch directory)']
    assumptions = ['files are rectangular and numeric; ragged rows and unparsable cells are not covered']

    def scenario(self, rng, i, tier):
        op = ['write', 'read'][i % 2]
        d = dict(seed=rng.randrange(10 ** 6), n=rng.randint(1, 6), p=rng.randint(1, 6), v=rng.choice(
            ['', '', '', 'special', 'tiny', 'huge', 'int', 'zero']))
        if rng.random() < 0.15:
            d.update(n=rng.randint(1, 60), p=rng.randint(1, 40))
        elif i % 97 == 13:
            # more than common buffer sizes (64 KiB, 1 MiB)
            d.update(rng.choice([dict(n=300, p=20), dict(n=20, p=300), dict(n=4000, p=1), dict(n=400, p=150), dict(n=600, p=150)]))
            if d['v'] in ('huge', 'tiny'):
                d['v'] = ''
        elif i % 29 in (4, 11):
            # sizes around powers of two, and their multiples with the header line
            b = rng.choice([8, 16, 32, 64, 128, 256, 512, 1024, 100, 200, 500, 1000]) * rng.choice([1, 1, 1, 2, 3])
            d.update(n=b + rng.choice([-1, 0, 0, 1, 1, 2]), p=1)
            if rng.random() < 0.2:
                d.update(n=1, p=d['n'])
        scn = dict(kind=op, op=op, data=d, header=rng.random() < 0.5, sep=rng.choice(SEPS),
                   how=rng.choice(['name', 'name', 'name', 'file', 'file', 'stringio', 'failing']),
                   buf=rng.choice([16, 40, 128, 1024, 8192]))
        if d['n'] * d['p'] > 800:
            scn['buf'] = rng.choice([1024, 8192])
        if op == 'write':
            scn.update(dec=rng.choice([-1, -1, 0, 1, 3, 6, 15]), sci=rng.random() < 0.3,
                       old=rng.choice([None, None, 0, 1, 100, 3000]))
            if scn['sci'] and scn['dec'] == -1:
                scn['dec'] = 8
            if not scn['sci'] and rng.random() < 0.5:
                scn['defaults'] = True
            if rng.random() < 0.1:
                scn['edited'] = True
            if d['v'] in ('huge',) and rng.random() < 0.5:
                d['v'] = ''
        else:
            scn.update(fmt=rng.choice(['repr', 'sci', 'plus', 'pad', 'mixed']), nl=rng.choice(['\n', '\n', '\r\n']),
                       end=rng.random() < 0.7, head=rng.choice(['plain', 'odd', 'numeric', 'utf8', 'page']))
            if scn['sep'] == ' ' and scn['fmt'] == 'pad':
                scn['fmt'] = 'repr'
        if rng.random() < 0.12:
            scn['fault'] = dict(mode='line', exc='KeyboardInterrupt') if op == 'read' else rand_fault(rng, 'Matrix')
        elif rng.random() < 0.92:
            scn['faults'] = rng.choice([1, 1, 1, 2, 3, 8])
        return scn

    def resolve(self, scn, rng):
        if scn.get('fault'):
            k = F.pick(rng, in_scratch(_dry_fault, scn))
            if k is None:
                del scn['fault']
            else:
                scn['fault'] = dict(scn['fault'], k=k)
        if scn['how'] == 'failing':
            scn['k'] = rng.randrange(scn['data']['n'] + (1 if scn['header'] else 0) + 1)
            scn.pop('faults', None)
        n = scn.pop('faults', None)
        if n:
            scn['plan'] = simfs.pick(rng, in_scratch(_run, scn, True), n)
        return scn

    def execute(self, scn):
        r = in_scratch(_run, scn)
        faults, probes, v = {}, {}, None
        for name, what in r['fired']:
            bump(faults, '%s:%s' % (name, what))
        if r['hit']:
            bump(faults, scn['fault']['mode'] + ':' + scn['fault']['exc'])
        if r.get('failed'):
            bump(faults, 'stream:EIO')
        out, op = r['out'], scn['op']
        ctx = '%s %s %dx%d sep=%r faults %r%s' % (op, scn['how'], scn['data']['n'], scn['data']['p'], scn['sep'],
                                                  r['fired'], ' interrupted at %s' % r['hit'] if r['hit'] else '')
        key = 'C09:%s:%s:' % (op, scn['how'])
        line = r['hit'] and scn['fault']['mode'] == 'line'
        bump(probes, '%s:%s:%s' % (op, scn['how'], out[0]))
        v = self.judge_write(scn, r, ctx, key) if op == 'write' else self.judge_read(scn, r, ctx, key)
        if v is None and r.get('open') is False:
            v = viol('stream-closed', key + 'closed', '%s: the caller\'s stream was closed' % ctx)
        if v is None and r.get('failed') and out[0] == 'v':
            v = viol('swallowed', key + 'swallowed', '%s: the stream failed, the call returned normally' % ctx)
        if v is None and out[0] == 'v' and r['damaging'] and scn['how'] == 'name' and op == 'read':
            v = viol('swallowed', key + 'swallowed', '%s: the storage failed, the call returned normally' % ctx)
        if v is None and out[0] == 'x' and not r['hit'] and not r['damaging'] and not r.get('failed'):
            v = viol('spurious', key + 'spurious', '%s: raised %s although the storage worked' % (ctx, out[1]))
        if v is None and not line and scn['how'] == 'name' and r['handles'] and out[0] != 'crash':
            v = viol('handle', key + 'handle', '%s: %d file handle(s) open after %r' % (ctx, r['handles'], out[0]))
        nontrivial = r['fired'] or r['hit'] or r.get('failed')
        sig = [op, scn['how'], scn['data']['n'], scn['data']['p'], scn['header'], scn['sep'], scn.get('dec'),
               [[f['k'], f['what'], f.get('frac')] for f in scn.get('plan') or []], r['hit'], out[0]]
        return result(v, r['n'] + 1, faults, [digest(sig)] if nontrivial else [], probes,
                      digest([out, r['file'], r['fired'], r['hit']]))

    def judge_write(self, scn, r, ctx, key):
        out, text = r['out'], r['text']
        bad = text_wrong(text, r['a'], scn)
        if bad:
            return viol('incomplete', key + 'text', '%s: %s' % (ctx, bad))
        if not same_exact(r['m'], r['a']):
            return viol('changed', key + 'changed', '%s: writing changed the matrix' % ctx)
        how = scn['how']
        old = r['old'] or b''
        full = text.encode()
        if how == 'file':
            full = (old if scn.get('old') is not None else b'') + b'prior\n' + full
        if how in ('name', 'file'):
            got = r['file']
            if out[0] == 'v' and r.get('fin', 'v') == 'v':
                if got != full:
                    return viol('incomplete', key + 'incomplete', '%s: returned normally but the file holds %s of %d '
                                'bytes' % (ctx, None if got is None else len(got), len(full)))
            elif got is not None and got != old and not full.startswith(got):
                return viol('mixture', key + 'mixture', '%s: the failed write left neither the old contents nor a '
                            'beginning of the new: %r' % (ctx, got[:60]))
        elif out[0] == 'v':
            want = text if how == 'failing' else 'prior\n' + text
            if r['content'] != want and not r.get('failed'):
                return viol('incomplete', key + 'incomplete', '%s: the stream holds %d of %d characters' %
                            (ctx, len(r['content'] or ''), len(want)))
        if 'again' in r:
            if r['again'] != 'v' or r['file2'] != text.encode():
                return viol('not-repeatable', key + 'again', '%s: writing again after the fault: %s' % (ctx, r['again']))
            if 'back' in r and (r['back'][0] != 'v' or not same_exact(r['back'][1], r['a'])):
                return viol('round-trip', key + 'roundtrip', '%s: reading back gives %s' % (ctx, C.brief(r['back'])))
        return None

    def judge_read(self, scn, r, ctx, key):
        out = r['out']
        if out[0] == 'v' and not near(out[1], r['a']):
            got = out[1]
            return viol('incomplete', key + 'incomplete', '%s: returned normally with %s instead of the %s values of '
                        'the file' % (ctx, None if got is None else got.shape, r['a'].shape))
        if r['file'] != r['orig']:
            return viol('mixture', key + 'file-changed', '%s: reading changed the file' % ctx)
        if 'back' in r and (r['back'][0] != 'v' or not near(r['back'][1], r['a'])):
            return viol('not-repeatable', key + 'again', '%s: reading again after the fault gives %s' %
                        (ctx, C.brief(r['back'])))
        return None

    def shrink(self, scn):
        from .main import drop_each
        for p in drop_each(scn.get('plan') or []):
            yield dict(scn, plan=p)
        d = scn['data']
        if d.get('v'):
            yield dict(scn, data=dict(d, v=''))
        for n in ('n', 'p'):
            if d[n] > 1:
                yield dict(scn, data=dict(d, **{n: d[n] // 2}))
                yield dict(scn, data=dict(d, **{n: d[n] - 1}))
        if scn['header']:
            yield dict(scn, header=False)
        if scn['sep'] != ',':
            yield dict(scn, sep=',')
        if scn.get('old') is not None:
            yield dict(scn, old=None)


PROP = C09()
