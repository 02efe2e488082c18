"""Writes /verif/MANIFEST.json and /verif/known_findings.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]

TECH = 'deterministic simulation with fault injection: '
NOTE = {
    'C01': ('seeded histories of public calls with injected numeric failures and interrupts, compared with a fresh '
            'object in a pristine process',
            'Explores histories up to 6 calls of all 18 algorithm classes on small data; a model difference above '
            '1e-6 relative is a violation. Trusts numpy/scipy/sklearn and settrace.'),
    'C02': ('numeric failure, interrupt or rejected data at a seeded point of a training, object probed afterwards '
            'and retrained',
            'Every recorded call/line event of every algorithm is a candidate fault point; sampled by site.'),
    'C03': ('seeded histories of configure/transform/inverse/reset/parameter changes with faults, against the '
            'set of admissible single configurations',
            'Exploration over all transformation classes; data small; the model tracks which configurations are '
            'admissible after a failure.'),
    'C04': ('argument bytes compared after calls that return, fail or are interrupted; arguments and results '
            'scribbled over, later results compared with an undisturbed twin',
            'Exploration over all classes, filters and matrix operations.'),
    'C05': ('seeded sequences of edits, queries, scribbles and failures on one matrix against a fresh matrix per '
            'query', 'Exploration; public matrix API only, writing to Matrix.data directly is not an API edit.'),
    'C06': ('seeded thread schedules at line and byte-code granularity over one shared object',
            'Explores preemption placement for 2-4 threads; switches inside numpy C code are not modelled '
            '(atomic).'),
    'C07': ('seeded thread schedules and faults over separate objects with the caller using process-wide state',
            'Explores; process-wide state compared is the list in c07.settings() and the two global generators.'),
    'C08': ('simulated storage with a seeded fault plan (ENOSPC, EIO, short writes, failing open/close/mkdir, '
            'crash, directory race), bytes compared with an independent encoder',
            'Every storage event of a save is a candidate fault point. Power-loss reordering below the file system '
            'is not modelled.'),
    'C09': ('simulated storage with a seeded fault plan under text reads and writes, contents compared with '
            'harness data', 'Rectangular numeric files only.'),
    'C10': ('degenerate data and NaN faults in seeded numeric operations; progress counted on a logical clock '
            '(executed library lines) against a bound',
            'Bound is five times the calibrated cost per iteration; a loop that merely runs a few times too long '
            'is not seen.'),
    'C11': ('seeded histories of valid, invalid and interrupted parameter assignments in every life-cycle state '
            'against a small reference model', 'Exploration over every parameter of every class.'),
    'C12': ('numeric failures, interrupts and unusable arguments inside read-only calls, every call compared with '
            'an object that did nothing else', 'Exploration over all classes and matrix operations.'),
    'C13': ('the same work in interpreters whose hash seed, options, allocator, clock, random streams, console, '
            'threads, numpy settings and matrix layouts a seed chooses, against a reference environment',
            'Exploration; results that a relative data change of 1e-12 moves visibly are not compared.'),
    'C14': ('lives of one object cut by pickling into a new process of another environment (the old one ends) or by '
            'deep copies that run on side by side, with failing copies, against the same life without copying',
            'Exploration over all classes; pickles are read by the code that wrote them.'),
}
NA = {
    'C20': 'A pure function of data and parameters: no schedule, fault, clock, I/O or history takes part, so there is '
           'nothing for a simulator to own. (That histories and faults do not disturb it is C03, C12.)',
    'C21': 'Numerical correctness of single numpy calls on one input: no nondeterminism to simulate.',
    'C22': 'Numerical correctness of a pure computation on one training set: no nondeterminism to simulate. (That '
           'history and faults do not disturb the result is C01, C02.)',
    'C23': 'A pure function of one matrix and constants: no nondeterminism to simulate.',
    'C24': 'Argument validation of a pure function: depends on the input only.',
    'C25': 'A pure function of a list: depends on the input only.',
}
checks = [dict(property=p['id'], quick_cmd='./check.sh ' + p['id'],
               thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
               evidence_file='evidence/%s.json' % p['id'], technique=TECH + NOTE[p['id']][0], level='exploration',
               level_note=NOTE[p['id']][1]) for p in props if p['id'] in NOTE]
man = dict(version=1, setup_cmd='./check.sh C05 --runs 40 --digest 40', checks=checks,
           not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in props if p['id'] not in NOTE],
           notes='No hooks in /repo: the seams are sys.settrace, replaced threading locks, replaced open/os calls and '
                 'wrapped numpy functions, all inside forked processes. Replay: ./check.sh <id> --replay <file>.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

FIXED = [
    ('C05', 'ff4a174', 'decomposition caches survived vector_op_modify and fill_diagonal, V was handed out uncopied, '
                       'get_singular_values was wrong after edits'),
    ('C07', 'c3507a9', 'factory.rand/randn reseeded numpy\'s global generator'),
    ('C01', '1448d47', 'DIPLS kept domain sizes and strategy of earlier trainings (also C02, C11)'),
    ('C01', 'bcb6d09', 'CCAFilter centred with the statistics of its first training'),
    ('C01', '232bab9', 'FastICA kept centring, component count and sources of earlier data'),
    ('C04', '4aeeedf', 'PCA.scores and FastICA.sources aliased the returned matrix'),
    ('C01', '2cc199f', 'kernels with gamma=None kept the gamma of the first data set'),
    ('C02', 'a22f6ef', 'SIMPLS Q and OPLS X_osc survived reset; PRM.get_matrix("W") raised when untrained (also C11)'),
    ('C02', '73bb549', 'OPLS reported success although its base model failed to train'),
    ('C02', 'b8f62e0', 'failed trainings left model matrices behind (AbstractPLS, PCA, FastICA)'),
    ('C11', '1cc8ed2', 'parameters without validator did not invalidate the trained model (also C03)'),
    ('C03', 'c7047bc', 'a failed configuration left a mixture of old and new state marked as configured'),
    ('C03', 'b0838f4', 'RowNorm.inverse_transform marked it configured, so the next transform used foreign rows'),
    ('C08', '0ebfee4', 'save_state truncated the existing file before refusing, and failed for bare file names'),
    ('C08', 'f308212', 'Log serialised integral base/offset as 4-byte integers'),
    ('C09', '48fd54d', 'reading an empty stream failed with an unrelated TypeError'),
    ('C02', 'd8a9a9a', 'CCAFilter.initialize(X, None) reported success without training (also C01)'),
    ('C03', '0a90f0f', 'Standardize could be left with means of one and deviations of another data set'),
    ('C02', '5bf54f2', 'every training of NIPALS and CCARegression with more than one response column raised ValueError'),
    ('C22', 'a98b142', 'the NIPALS loop never used its new Y scores, so several response columns were not iterated to '
                       'convergence (found while planting bugs; no claimed check decides it)'),
    ('C14', '4a76d65', 'RBFKernel and PolyKernel with automatic gamma answered NaN after unpickling'),
]
data = lambda seed, s: dict(seed=seed, n=10, p=5, s=s)  # noqa
known = dict(findings=[
    dict(property='C01', key='C01:DIPLS:stale-centering',
         what='DIPLS centres the data of every training with the column means of the first data set it was ever '
              'trained on (DIPLS keeps its Center transformations configured). The stored regression references of '
              'the repository depend on it, so it cannot be repaired without editing them.',
         scenario=dict(kind='DIPLS', cls='DIPLSraw', params={}, ops=[dict(op='train', data=data(11, 0))],
                       final=data(12, 0), run=[0, 0])),
    dict(property='C08', key='C08:get_serialised_state:empty',
         what='Serialisable.get_serialised_state() returns no bytes for every object: it reads its stream from the '
              'end. The repository\'s reference files for it are empty, so it cannot be repaired without editing them.',
         scenario=dict(kind='Matrix', op='getser', data=dict(seed=1, n=2, p=3, v=''), buf=8192, run=[0, 0])),
], fixed=['fixed: property=%s %s %s' % t for t in FIXED])
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(known, f, indent=1)
    f.write('\n')
