"""
Entry point of every check.

    check.sh <property>                  run the seeded search (VERIF_SEED, VERIF_TIER)
    check.sh <property> --replay FILE    execute one recorded scenario again
    check.sh <property> --digest N       print a digest over N runs (determinism self-test)

Exit 0: property held.  Exit 1: a VIOLATION line was printed.  Anything else: the machinery failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
WORKERS = int(os.environ.get('SIM_WORKERS', str(min(8, os.cpu_count() or 1))))


def die_with_parent():
    """No simulated process outlives the check."""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def load(prop):
    return importlib.import_module('sim.' + prop.lower()).PROP


def third_party():
    import numpy, scipy, sklearn, sklearn.preprocessing, logging, concurrent.futures, queue, multiprocessing  # noqa


def check_import():
    # third-party packages first, with real locks; the library then only sees locks the scheduler can drive
    third_party()
    from . import simlock
    simlock.install()
    import wai.ma
    got = os.path.abspath(wai.ma.__file__)
    want = os.path.join(REPO, 'src', 'wai', 'ma')
    if not got.startswith(want):
        print('HARNESS-ERROR: library imported from %s, expected %s' % (got, want))
        sys.exit(3)
    from . import catalog
    catalog.L.load()
    warm_up()
    import gc
    gc.collect()
    gc.freeze()


def warm_up():
    """Triggers the lazy imports of the third-party packages (not of the library) once, before any fork."""
    import warnings
    import numpy as np
    from sklearn import preprocessing as P
    x = np.abs(np.sin(np.arange(24.0).reshape(8, 3))) + 0.5
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for t in (P.PowerTransformer(), P.PowerTransformer(method='box-cox'), P.RobustScaler(),
                  P.QuantileTransformer(n_quantiles=4, random_state=1),
                  P.QuantileTransformer(n_quantiles=4, random_state=1, output_distribution='normal')):
            t.inverse_transform(t.fit(x).transform(x))
    np.linalg.svd(x), np.linalg.eig(x[:3]), np.fft.fft(x)


def rng_for(prop, seed, i):
    h = hashlib.sha256(('%s/%d/%d' % (prop, seed, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def build(prop, seed, i, tier):
    """Scenario number i of a seed: the only place where randomness enters."""
    rng = rng_for(prop.id, seed, i)
    from . import base
    base.draw_traits(prop, rng_for(prop.id + '/special', seed, i))
    scn = prop.scenario(rng, i, tier)
    scn['run'] = [seed, i]
    scn = prop.resolve(scn, rng)
    return scn


def guarded(prop, scn):
    """prop.execute with hangs and dead processes turned into verdicts."""
    from .isolate import Hang, Died
    try:
        return prop.execute(scn)
    except Hang as e:
        # a run takes milliseconds: allow one slow repetition before calling it a hang
        try:
            from . import isolate
            isolate.HANG_S = float(os.environ.get("SIM_HANG2_S", "60"))
            return prop.execute(scn)
        except Hang as e2:
            return dict(violation=dict(cls='hang', key='hang', msg='simulated run never finishes: %s' % e2), steps=0,
                        faults={}, sigs=[], probes={})
    except Died as e:
        if scn.get('gran') == 'opcode':
            # CPython's instruction-level tracing can itself crash: judge this schedule line by line
            r = guarded(prop, dict(scn, gran='line'))
            r.setdefault('probes', {})['instruction-tracing-crashed'] = 1
            return r
        return dict(violation=dict(cls='died', key='died', msg='simulated run killed its process: %s' % e), steps=0,
                    faults={}, sigs=[], probes={})


# --------------------------------------------------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------------------------------------------------
def worker(prop, seed, tier, indices, out, stop_at):
    with os.fdopen(out, 'w', buffering=1 << 16) as f:
        for i in indices:
            if time.monotonic() > stop_at:
                f.write(json.dumps({'i': i, 'skipped': 1}) + '\n')
                f.flush()
                break
            try:
                scn = build(prop, seed, i, tier)
                res = guarded(prop, scn)
                rec = {'i': i, 'steps': res.get('steps', 0), 'faults': res.get('faults', {}),
                       'sigs': res.get('sigs', []), 'probes': res.get('probes', {}), 'kind': scn.get('kind', '')}
                if res.get('digest'):
                    rec['digest'] = res['digest']
                if res.get('violation'):
                    rec['violation'] = res['violation']
                    rec['scn'] = res.get('scn') or scn
                elif i < 3:
                    rec['scn'] = scn
            except Exception:  # noqa
                rec = {'i': i, 'harness': traceback.format_exc()}
            f.write(json.dumps(rec) + '\n')
            f.flush()


def sweep(prop, seed, tier, count, wall_s, on_record):
    """Static partition of run numbers over forked workers; records are handed to on_record as they arrive."""
    stop_at = time.monotonic() + wall_s
    procs = {}
    for w in range(WORKERS):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.setpgid(0, 0)
                die_with_parent()
                os.close(r)
                for fd in [p[1] for p in procs.values()]:
                    os.close(fd)
                worker(prop, seed, tier, range(w, count, WORKERS), wr, stop_at)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = [pid, r, b'']
    stopping = False
    failed = []
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 5)
        for fd in ready:
            b = os.read(fd, 1 << 16)
            if not b:
                pid = procs[fd][0]
                os.close(fd)
                del procs[fd]
                _, st = os.waitpid(pid, 0)
                if st and not stopping:
                    failed.append(st)
                continue
            procs[fd][2] += b
            *lines, procs[fd][2] = procs[fd][2].split(b'\n')
            for line in lines:
                if on_record(json.loads(line)) and not stopping:
                    stopping = True
                    for p in procs.values():
                        for kill in (os.killpg, os.kill):
                            try:
                                kill(p[0], signal.SIGKILL)
                            except (ProcessLookupError, PermissionError):
                                pass
    return failed


# --------------------------------------------------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------------------------------------------------
def minimise(prop, scn, violation, budget_s=40.0):
    """Greedy shrinking: keep any simpler scenario that still shows the same class of violation."""
    end = time.monotonic() + budget_s
    tried = 0
    best, bestv = scn, violation
    progress = True
    seen = set()
    while progress and time.monotonic() < end:
        progress = False
        for cand in prop.shrink(json.loads(json.dumps(best))):
            if time.monotonic() > end:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            try:
                res = guarded(prop, json.loads(key))
            except Exception:  # noqa  (a shrunk scenario may be nonsense)
                continue
            v = res.get('violation')
            if v and v['cls'] == violation['cls']:
                best, bestv = res.get('scn') or json.loads(key), v
                progress = True
                break
    return best, bestv, tried


def drop_each(lst):
    """ddmin-style removals: halves, quarters, ..., single elements."""
    n = len(lst)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            cand = lst[:start] + lst[start + size:]
            if len(cand) < n:
                yield cand
        size //= 2


# --------------------------------------------------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------------------------------------------------
def replay(prop, path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    res = guarded(prop, rec['scenario'])
    v = res.get('violation')
    if not quiet:
        if v:
            print('replayed: %s' % v['msg'])
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        else:
            print('replay did not violate the property')
    return v


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f).get('findings', [])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--digest', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--one', type=int)
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation; list all')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    check_import()
    prop = load(a.prop)
    prop.start()
    if a.replay:
        sys.exit(1 if replay(prop, a.replay) else 0)
    if a.one is not None:
        scn = build(prop, seed, a.one, tier)
        print(json.dumps(scn))
        res = guarded(prop, scn)
        print(json.dumps({k: res[k] for k in res if k != 'scn'}, indent=1))
        sys.exit(0)
    if a.digest:
        h = {}

        def on(rec):
            if 'harness' in rec:
                print(rec['harness'])
                sys.exit(3)
            h[rec['i']] = json.dumps([rec.get('digest'), rec['faults'], rec['sigs'], rec['steps']], sort_keys=True)
        sweep(prop, seed, tier, a.digest, 1e9, on)
        print(prop.id, len(h), hashlib.sha256(json.dumps([h[i] for i in sorted(h)]).encode()).hexdigest())
        sys.exit(0)

    print('%s seed=%d tier=%s workers=%d' % (prop.id, seed, tier, WORKERS))
    sys.stdout.flush()
    count = a.runs or prop.runs(tier)
    wall = 330.0 if tier == 'quick' else float(os.environ.get('SIM_WALL_S', '800'))
    known = [k for k in known_findings() if k['property'] == prop.id]
    known_keys = {k['key'] for k in known}
    hit_known = {}
    agg = dict(evals=0, steps=0, faults={}, probes={}, sigs=set(), kinds={}, skipped=0)
    samples, found, harness = [], [], []

    # pinned scenarios of the known findings, so that each is re-examined on every run
    for k in known:
        res = guarded(prop, k['scenario'])
        v = res.get('violation')
        if v and v['key'] == k['key']:
            hit_known[k['key']] = k
        elif v:
            found.append((-1, v, k['scenario']))

    def on_record(rec):
        if 'harness' in rec:
            harness.append(rec)
            return True
        if rec.get('skipped'):
            agg['skipped'] += 1
            return False
        agg['evals'] += 1
        agg['steps'] += rec['steps']
        for d in ('faults', 'probes'):
            for n, c in rec[d].items():
                agg[d][n] = agg[d].get(n, 0) + c
        agg['sigs'].update(rec['sigs'])
        agg['kinds'][rec['kind']] = agg['kinds'].get(rec['kind'], 0) + 1
        if rec.get('violation'):
            key = rec['violation']['key']
            if key in known_keys:
                hit_known[key] = next(k for k in known if k['key'] == key)
                return False
            found.append((rec['i'], rec['violation'], rec['scn']))
            if a.all:
                return False
            return True
        if 'scn' in rec and len(samples) < 3:
            samples.append(rec['scn'])
        return False

    failed = []
    if not found:
        failed = sweep(prop, seed, tier, count, wall, on_record)
    wall_s = time.time() - t0
    for k in sorted(hit_known):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, hit_known[k]['what']))

    rc = 0
    if a.all:
        by = {}
        for i, v, scn in found:
            by.setdefault(v['key'], []).append((i, v))
        for key in sorted(by):
            print('%4d x %s  [run %d] %s' % (len(by[key]), key, by[key][0][0], by[key][0][1]['msg'][:300]))
        for h in harness[:2]:
            print('HARNESS-ERROR run %s\n%s' % (h['i'], h['harness']))
        print('runs', agg['evals'], 'violating', len(found), 'wall', round(wall_s, 1))
        sys.exit(1 if found else 0)
    if found:
        i, v, scn = min(found, key=lambda t: t[0])
        print('run %d violates %s: %s' % (i, prop.id, v['msg']))
        sys.stdout.flush()
        best, bestv, tried = minimise(prop, scn, v) if v['cls'] not in ('hang', 'died') else (scn, v, 0)
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%d-%d.json' % (prop.id, seed, max(i, 0)))
        with open(path, 'w') as f:
            json.dump(dict(property=prop.id, seed=seed, run=i, violation=bestv, scenario=best,
                           shrink_attempts=tried), f, indent=1)
            f.write('\n')
        # the replay file must reproduce in a fresh process
        rr = subprocess.run([os.path.join(ROOT, 'check.sh'), prop.id, '--replay', path], capture_output=True,
                            text=True)
        print('minimised after %d attempts: %s' % (tried, bestv['msg']))
        print('replay in a fresh process: %s' % ('reproduced' if rr.returncode == 1 else
                                                 'NOT reproduced (rc %d)' % rr.returncode))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        rc = 1
    elif harness or failed:
        for h in harness[:2]:
            print('HARNESS-ERROR run %s\n%s' % (h['i'], h['harness']))
        if failed:
            print('HARNESS-ERROR worker status %r' % failed)
        rc = 3

    ev = dict(property=prop.id, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=agg['evals'], distinct_nontrivial=len(agg['sigs']), rule=prop.rule,
                            samples=samples[:3] or [f[2] for f in found[:1]],
                            runs_per_hour=int(agg['evals'] / max(wall_s, 1e-9) * 3600),
                            seeds_per_hour=int(agg['evals'] / max(wall_s, 1e-9) * 3600),
                            simulated_steps=agg['steps'], simulated_time_unit=prop.time_unit,
                            faults_injected=dict(sorted(agg['faults'].items())),
                            reach_probes=dict(sorted(agg['probes'].items())),
                            runs_by_kind=dict(sorted(agg['kinds'].items())),
                            distinct_measure=prop.distinct_measure,
                            real_components=prop.real, stub_components=prop.stubs,
                            runs_not_executed_wall_limit=agg['skipped'],
                            known_findings_seen=sorted(hit_known)),
              assumptions=prop.assumptions, wall_s=round(wall_s, 2), violations=len(found))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d runs, %d steps, %d distinct, faults %s, %.1f s' %
          (prop.id, agg['evals'], agg['steps'], len(agg['sigs']), json.dumps(agg['faults'], sort_keys=True), wall_s))
    sys.exit(rc)


if __name__ == '__main__':
    main()
