"""C08: saved state is complete or the failure is reported."""
import io
import math
import os
import shutil
import struct
import tempfile

import numpy as np

from . import catalog as C
from . import faults as F
from . import sched as S
from . import simfs
from .base import *

KINDS = ['SIMPLS', 'Standardize', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2', 'Matrix']
SCRATCH = os.environ.get('SIM_SCRATCH') or tempfile.gettempdir()


# ---- the encoding, written down independently of the library -----------------------------------------------------
def enc_matrix(a):
    a = np.asarray(a, dtype='<f8')
    return struct.pack('<ii', *a.shape) + a.tobytes(order='C')


def dec_matrix(b, at):
    if len(b) < at + 8:
        return None
    r, c = struct.unpack_from('<ii', b, at)
    if r < 0 or c < 0 or len(b) < at + 8 + 8 * r * c:
        return None
    return at + 8 + 8 * r * c


def decodes(kind, b):
    """Could a reader take these bytes for a complete state?"""
    if kind == 'Log':
        return len(b) == 24
    at = 0
    for _ in range(2 if kind == 'Standardize' else 1):
        at = dec_matrix(b, at)
        if at is None:
            return False
    return at == len(b)


def encoding(kind, obj, scn):
    """Expected bytes, from what the object shows through its public interface."""
    if kind == 'Matrix':
        return enc_matrix(C.arr(obj))
    if kind == 'SIMPLS':
        return enc_matrix(C.arr(obj.get_matrix('W')))
    if kind == 'Standardize':
        return enc_matrix(C.arr(obj.get_means())) + enc_matrix(C.arr(obj.get_std_devs()))
    if kind == 'Log':
        base, off = float(obj.base), float(obj.offset)
        return struct.pack('<ddd', base, 1.0 if base == math.e else float(1.0 / np.log(base)), off)
    # Savitzky-Golay: the coefficients are the responses to unit impulses
    p = scn['params']
    w = p['num_points_left'] + p['num_points_right'] + 1 if kind == 'SavitzkyGolay' else 2 * p['num_points'] + 1
    return enc_matrix(C.arr(obj.transform(C.M(np.eye(w)))).reshape(1, w))


def agree(kind, a, b):
    """Same encoded state; values that were computed may differ in the last bits."""
    if a == b or a is None or b is None:
        return a == b
    if kind == 'Matrix' or len(a) != len(b) or not (decodes(kind, a) and decodes(kind, b)):
        return False
    if kind == 'Log':
        return bool(np.allclose(np.frombuffer(a, '<f8'), np.frombuffer(b, '<f8'), 1e-12, 0, True))
    at = 0
    while at < len(a):
        end = dec_matrix(a, at)
        if a[at:at + 8] != b[at:at + 8]:
            return False
        x, y = np.frombuffer(a, '<f8', offset=at + 8, count=(end - at - 8) // 8), \
            np.frombuffer(b, '<f8', offset=at + 8, count=(end - at - 8) // 8)
        if not np.allclose(x, y, 1e-9, 1e-12, True):
            return False
        at = end
    return True


# ---- subjects -----------------------------------------------------------------------------------------------------
def subject(scn):
    """(object, savable)"""
    kind = scn['kind']
    if kind == 'Matrix':
        d = scn['data']
        r = np.random.RandomState(d['seed'])
        a = r.normal(size=(d['n'], d['p'])) * 10.0 ** r.randint(-3, 4)
        if d.get('v') == 'special':
            a.flat[r.randint(a.size)] = np.nan
            a.flat[r.randint(a.size)] = np.inf
            a.flat[r.randint(a.size)] = -0.0
            a.flat[r.randint(a.size)] = 5e-324
        if d.get('v') == 'fortran':
            a = np.asfortranarray(a)
        if d.get('v') == 'int':
            return C.L.Matrix(np.arange(d['n'] * d['p'], dtype=np.int32).reshape(d['n'], d['p'])), False
        if d.get('v') == 'complex':
            return C.L.Matrix(a + 1j), False
        return C.L.Matrix(a), True
    obj = C.create(kind, scn['params'])
    if scn.get('untrained') and kind != 'Log':
        return obj, False
    out = C.outcome(lambda: C.prepare(kind, obj, C.make_data(kind, scn['data'])))
    return obj, trained(out) or kind == 'Log'


class Failing(io.BytesIO):
    """A stream of the caller whose k-th write fails."""

    def __init__(self, k):
        super().__init__()
        self.left = k
        self.hit = False

    def write(self, b):
        if self.left == 0:
            self.hit = True
            raise OSError(5, 'simulated: stream failed')
        self.left -= 1
        return super().write(b)


def target(name, j=0):
    return dict(bare='state.bin', nested=os.path.join('a', 'b c', 'state%d.bin' % j), sub=os.path.join('sub', 'x.bin'),
                abs=os.path.join(os.getcwd(), 'abs', 'd', 'state.bin'), dot=os.path.join('.', 'state.bin'))[name]


def put_old(path, old, want=None):
    if old is None:
        return None
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    data = dict(garbage=b'not a state', big=enc_matrix(np.ones((9, 11))) * 3, small=b'\1', empty=b'',
                state=enc_matrix(np.full((2, 2), 7.0)),
                # as long as what is going to be saved, another state of the same shape
                alike=(want or b'')[:8] + bytes(b ^ 8 for b in (want or b'')[8:]))[old]
    with open(path, 'wb') as f:
        f.write(data)
    return data


def slurp(path):
    if not os.path.isfile(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def attempt(fs, fn, fault):
    """Outcome of a call on the simulated storage, with the handles open when the caller sees it."""
    inj = F.Injector(fault['mode'], fault['k'], fault['exc']) if fault else None
    try:
        r = inj.run(fn) if inj else fn()
        out = ['v', r]
        handles = fs.open_handles()
    except simfs.SimCrash:
        out, handles = ['crash', None], 0
    except (Exception, KeyboardInterrupt) as e:  # noqa
        out = ['x', type(e).__name__]
        handles = fs.open_handles()
        e = None
    return out, handles, inj.fired if inj else None


def _run(scn, root, record=False):
    C.L.load()
    os.chdir(root)
    kind = scn['kind']
    if scn['op'] == 'race':
        return _race(scn, root, record)
    obj, savable = subject(scn)
    want = encoding(kind, obj, scn) if savable else None
    plan = [] if record else scn.get('plan') or []
    fault = None if record else scn.get('fault')
    fs = simfs.SimFS(root, plan, scn.get('buf'))
    res = dict(savable=savable, want=want)
    if scn['op'] == 'save':
        path = target(scn['target'])
        res['old'] = put_old(path, scn.get('old'), want)
        with fs:
            res['out'], res['handles'], res['hit'] = attempt(fs, lambda: obj.save_state(path), fault)
        res['got'] = slurp(path)
        res['files'] = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, ff in os.walk(root) for f in ff)
        if not fs.dead and not record:
            # faults are over: saving again has to work
            fs2 = simfs.SimFS(root, [], scn.get('buf'))
            with fs2:
                res['again'] = attempt(fs2, lambda: obj.save_state(path), None)[:2]
            res['got2'] = slurp(path)
    elif scn['op'] == 'stream':
        prior = bytes(range(scn['prior']))
        how = scn['how']
        with fs:
            fs.hold = True
            if how == 'bytesio':
                st = io.BytesIO()
            elif how == 'failing':
                st = Failing(scn['k'] if not record else 10 ** 9)
            else:
                st = open('stream.bin', 'wb')
            if how != 'failing':
                st.write(prior)
            else:
                prior = b''
            fs.hold = False
            res['out'], res['handles'], res['hit'] = attempt(fs, lambda: obj.serialise_state(st), fault)
            res['open'] = not st.closed
            if how in ('bytesio', 'failing'):
                res['got'] = st.getvalue() if res['open'] else None
                res['failed'] = how == 'failing' and st.hit
            else:
                fin, _, _ = attempt(fs, st.close, None)
                res['closed'] = fin[0]
        if how == 'file':
            res['got'] = slurp('stream.bin')
        res['prior'] = prior
    elif scn['op'] == 'getser':
        with fs:
            res['out'], res['handles'], res['hit'] = attempt(fs, obj.get_serialised_state, fault)
    if record:
        return fs.events
    res.update(fired=fs.fired, damaging=fs.damaging(), n=fs.n)
    if res['hit'] is None:
        res['after'] = ['v', encoding(kind, obj, scn)] if savable else None
    return res


def _race(scn, root, record):
    """Two threads save their own objects below the same new directory."""
    pairs = [subject(s) for s in scn['subjects']]
    objs = [o for o, _ in pairs]
    wants = [encoding(s['kind'], o, s) if ok else None for s, (o, ok) in zip(scn['subjects'], pairs)]
    paths = [target('nested', j) for j in range(len(objs))]
    fs = simfs.SimFS(root, [], scn.get('buf'))

    def body(j):
        def run(s):
            return objs[j].save_state(paths[j])
        return run
    s = S.Scheduler([body(j) for j in range(len(objs))], [] if record else scn['sched'], 'line', {}, record)
    fs.yield_ = lambda site: s.point(site)
    with fs:
        outs = s.run()
    fs.yield_ = None
    if record:
        return s.sites
    return dict(outs=outs, wants=wants, got=[slurp(p) for p in paths], handles=fs.open_handles(), trace=s.trace,
                steps=s.step, dead=s.deadlock)


def in_scratch(fn, scn, *args):
    root = tempfile.mkdtemp(prefix='fs', dir=SCRATCH)
    try:
        return isolated(fn, scn, root, *args)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _dry_fault(scn, root):
    C.L.load()
    os.chdir(root)
    obj, _ = subject(scn)
    if scn['op'] == 'save':
        return F.dry(lambda: obj.save_state('dry.bin'), scn['fault']['mode'])
    if scn['op'] == 'stream':
        return F.dry(lambda: obj.serialise_state(io.BytesIO()), scn['fault']['mode'])
    return F.dry(obj.get_serialised_state, scn['fault']['mode'])


def short(b):
    return 'nothing' if b is None else '%d bytes (%s...)' % (len(b), b[:12].hex())


class C08(Prop):
    id = 'C08'
    traits = ('rows', 'wide')
    quick_runs = 9900
    thorough_runs = 100000
    time_unit = 'storage events and scheduling points'
    rule = ('one run = one save/serialise call of a real object onto simulated storage with a seeded fault plan (or two '
            'threads saving below one new directory under an explicit schedule); the bytes are compared with an '
            'independent encoder; non-trivial = a storage fault, interrupt or thread switch took place')
    distinct_measure = 'distinct (class, operation, target, old contents, fault kinds with positions, outcome)'
    stubs = ['raw files and mkdir/rename/fsync/unlink (fault plan in front of the real file system in a scratch '
             'directory)', 'thread scheduling in the race runs']
    assumptions = ['caller streams are buffered: a raw unbuffered stream that accepts part of a write is not covered']

    def one(self, rng, kind):
        scn = dict(kind=kind)
        if kind == 'Matrix':
            scn['data'] = dict(seed=rng.randrange(10 ** 6), n=rng.randint(1, 6), p=rng.randint(1, 6), v=rng.choice(
                ['', '', '', 'special', 'fortran', 'int', 'complex']))
            if rng.random() < 0.1:
                scn['data'].update(n=rng.randint(20, 40), p=rng.randint(20, 40))
            elif rng.random() < 0.05:
                # more than one block of any usual size, sometimes exactly one
                scn['data'].update(rng.choice([dict(n=100, p=90), dict(n=400, p=400), dict(n=8200, p=16),
                                               dict(n=128, p=1), dict(n=512, p=1), dict(n=1024, p=1),
                                               dict(n=1024, p=8), dict(n=8192, p=1), dict(n=1, p=8192)]))
        else:
            scn['params'] = rand_params(rng, kind, rng.choice([0.0, 0.6]))
            scn['data'] = rand_data(rng, kind)
        return scn

    def scenario(self, rng, i, tier):
        kind = KINDS[i % len(KINDS)]
        x = rng.random()
        if x < 0.12:
            subs = []
            for _ in range(rng.choice([2, 2, 3])):
                s = self.one(rng, rng.choice(KINDS))
                if s['kind'] == 'Matrix':
                    s['data'].update(v='', n=rng.randint(1, 4), p=rng.randint(1, 4))
                subs.append(s)
            return dict(kind='+'.join(s['kind'] for s in subs), op='race', subjects=subs,
                        buf=rng.choice([16, 64, 8192]))
        scn = self.one(rng, kind)
        scn['buf'] = rng.choice([16, 50, 128, 1024, 8192])
        if scn['data'].get('n', 0) * scn['data'].get('p', 0) > 4000:
            scn['buf'] = rng.choice([8192, 65536])
        if x < 0.14:
            return dict(scn, op='getser')
        if x < 0.35:
            scn.update(op='stream', how=rng.choice(['bytesio', 'file', 'file', 'failing', 'failing']),
                       prior=rng.choice([0, 0, 5, 40]))
        else:
            scn.update(op='save', target=rng.choice(['bare', 'nested', 'nested', 'sub', 'abs', 'dot']),
                       old=rng.choice([None, None, 'garbage', 'big', 'small', 'empty', 'state', 'alike']))
        if rng.random() < 0.12:
            scn['untrained'] = True
        if rng.random() < 0.15:
            scn['fault'] = rand_fault(rng, kind)
        elif rng.random() < 0.92:
            scn['faults'] = rng.choice([1, 1, 1, 2, 3, 6])
        return scn

    def resolve(self, scn, rng):
        if scn['op'] == 'race':
            sites = in_scratch(_run, scn, True)
            scn['sched'] = S.draw(rng, sites, len(scn['subjects'])) if sites else []
            return scn
        if scn.get('fault'):
            try:
                sites = in_scratch(_dry_fault, scn)
            except Exception:  # noqa
                sites = []
            k = F.pick(rng, sites)
            if k is None:
                del scn['fault']
            else:
                scn['fault'] = dict(scn['fault'], k=k)
        if scn['op'] == 'stream' and scn['how'] == 'failing':
            scn['k'] = rng.choice([0, 1, 2, 3, rng.randrange(60)])
        n = scn.pop('faults', None)
        if n:
            events = in_scratch(_run, scn, True)
            scn['plan'] = simfs.pick(rng, events, n)
        return scn

    def execute(self, scn):
        if scn['op'] == 'race':
            return self.judge_race(scn)
        kind = scn['kind']
        r = in_scratch(_run, scn)
        faults, probes, v = {}, {}, None
        for name, what in r['fired']:
            bump(faults, '%s:%s' % (name, what))
        if r['hit']:
            bump(faults, scn['fault']['mode'] + ':' + scn['fault']['exc'])
        out, want, got = r['out'], r['want'], r.get('got')
        ctx = '%s.%s %s faults %r%s' % (kind, scn['op'], [scn.get(k) for k in ('target', 'old', 'how')
                                                        if scn.get(k)], r['fired'],
                                      ' interrupted at %s' % r['hit'] if r['hit'] else '')
        bump(probes, '%s:%s' % (scn['op'], out[0]))
        key = 'C08:%s:%s:' % (kind, scn['op'])
        line = r['hit'] and scn['fault']['mode'] == 'line'
        if scn['op'] == 'getser':
            v = self.judge_getser(kind, r, ctx)
        elif not r['savable']:
            if out[0] == 'v':
                v = viol('saved-nothing', key + 'unsavable', ctx + ': reported success for an object without state')
            elif scn['op'] == 'save' and got != r['old']:
                v = viol('old-file-lost', key + 'old-lost', '%s: refused, but the old file changed from %s to %s' %
                         (ctx, short(r['old']), short(got)))
        elif scn['op'] == 'save':
            v = self.judge_save(kind, r, ctx, key, line)
        else:
            v = self.judge_stream(scn, r, ctx, key)
        if v is None and out[0] == 'x' and not r['hit'] and r['savable'] and not r['damaging'] and \
                not r.get('failed'):
            v = viol('spurious', key + 'spurious', '%s: raised %s although the storage worked' % (ctx, out[1]))
        if v is None and r['savable'] and r.get('after') and not agree(kind, r['after'][1], want):
            v = viol('state-changed', key + 'changed', '%s: saving changed the state of the object' % ctx)
        if v is None and not line and r['handles'] and scn['op'] == 'save' and out[0] != 'crash':
            v = viol('handle', key + 'handle', '%s: %d file handle(s) left open after %r' % (ctx, r['handles'], out))
        nontrivial = r['fired'] or r['hit'] or r.get('failed')
        sig = [kind, scn['op'], scn.get('target'), scn.get('old'), scn.get('how'),
               [[f['k'], f['what'], f.get('frac')] for f in scn.get('plan') or []], r['hit'], out[0]]
        return result(v, r['n'] + 1, faults, [digest(sig)] if nontrivial else [], probes,
                      digest([out, got, r['fired'], r['hit']]))

    def judge_save(self, kind, r, ctx, key, line):
        out, want, got, old = r['out'], r['want'], r['got'], r['old']
        if out[0] == 'v':
            if not agree(kind, got, want):
                return viol('incomplete', key + 'incomplete', '%s: returned normally but the file holds %s, not %s' %
                            (ctx, short(got), short(want)))
        elif got is not None and got != old and not agree(kind, got, want) and decodes(kind, got):
            return viol('torn', key + 'torn', '%s: what is left (%s) decodes as a complete state that was never '
                                              'saved' % (ctx, short(got)))
        if 'again' in r:
            if r['again'][0][0] != 'v' or not agree(kind, r['got2'], want):
                return viol('not-repeatable', key + 'again', '%s: saving again after the fault gave %r, file %s' %
                            (ctx, r['again'][0], short(r['got2'])))
            if r['again'][1]:
                return viol('handle', key + 'handle', '%s: healthy save left %d handles open' % (ctx, r['again'][1]))

    def judge_stream(self, scn, r, ctx, key):
        out, want, got = r['out'], r['want'], r['got']
        if not r['open']:
            return viol('stream-closed', key + 'closed', '%s: the caller\'s stream was closed' % ctx)
        full = r['prior'] + want
        if got is not None and got.startswith(r['prior']) and agree(scn['kind'], got[len(r['prior']):], want):
            got = full
        if scn['how'] == 'failing':
            if r['failed'] and out[0] == 'v':
                return viol('swallowed', key + 'swallowed', '%s: the stream failed, the call returned normally' % ctx)
            if out[0] == 'v' and got != full:
                return viol('incomplete', key + 'incomplete', '%s: wrote %s, expected %s' % (ctx, short(got),
                                                                                            short(full)))
            return None
        if out[0] == 'v' and r.get('closed', 'v') == 'v' and got != full:
            return viol('incomplete', key + 'incomplete', '%s: stream holds %s, expected %s' %
                        (ctx, short(got), short(full)))
        if out[0] == 'v' and r['hit'] and got != full and not r['damaging']:
            return viol('incomplete', key + 'incomplete', '%s: stream holds %s' % (ctx, short(got)))
        return None

    def judge_getser(self, kind, r, ctx):
        out = r['out']
        if not r['savable']:
            if out[0] == 'v':
                return viol('saved-nothing', 'C08:get_serialised_state:unsavable', ctx + ': returned bytes')
            return None
        if out[0] == 'v' and not agree(kind, out[1], r['want']):
            if out[1] == b'':
                return viol('empty', 'C08:get_serialised_state:empty', ctx + ': get_serialised_state() returned no '
                                                                            'bytes')
            return viol('incomplete', 'C08:get_serialised_state:wrong', '%s: returned %s, expected %s' %
                        (ctx, short(out[1]), short(r['want'])))
        return None

    def judge_race(self, scn):
        r = in_scratch(_run, scn)
        v = None
        ctx = 'threads saving %s below one new directory, switches %r' % (scn['kind'], r['trace'][:5])
        if r['dead']:
            v = viol('deadlock', 'C08:race:deadlock', ctx + ': ' + str(r['dead']))
        for j, (o, w, g) in enumerate(zip(r['outs'], r['wants'], r['got'])):
            if v:
                break
            if w is None:
                continue
            if o[0] != 'v':
                v = viol('race', 'C08:race:failed', '%s: thread %d failed with %s' % (ctx, j, o[1]))
            elif not agree(scn['subjects'][j]['kind'], g, w):
                v = viol('race-incomplete', 'C08:race:incomplete', '%s: thread %d left %s, expected %s' %
                         (ctx, j, short(g), short(w)))
        if v is None and r['handles']:
            v = viol('handle', 'C08:race:handle', ctx + ': handles left open')
        sig = ['race', scn['kind'], [x[1:] for x in r['trace']]]
        return result(v, r['steps'], {'preemption': len(r['trace'])}, [digest(sig)] if r['trace'] else [],
                      {'race:ok' if not v else 'race:bad': 1}, digest([r['outs'], r['got'], r['trace']]))

    def shrink(self, scn):
        from .main import drop_each
        if scn['op'] == 'race':
            for s in drop_each(scn['sched']):
                yield dict(scn, sched=s)
            if len(scn['subjects']) > 2:
                yield dict(scn, subjects=scn['subjects'][:2])
            return
        for p in drop_each(scn.get('plan') or []):
            yield dict(scn, plan=p)
        if scn.get('old'):
            yield dict(scn, old=None)
        if scn.get('target') not in (None, 'bare'):
            yield dict(scn, target='bare')
        if scn['kind'] == 'Matrix' and scn['data'].get('v'):
            yield dict(scn, data=dict(scn['data'], v=''))
        if scn.get('buf') != 8192:
            yield dict(scn, buf=8192)


PROP = C08()
