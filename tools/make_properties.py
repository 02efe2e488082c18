"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


ALG = ['src/wai/ma/algorithm/_AbstractAlgorithm.py', 'src/wai/ma/core/_LoggingObject.py',
       'src/wai/ma/algorithm/pls/', 'src/wai/ma/algorithm/glsw/', 'src/wai/ma/algorithm/_CCAFilter.py',
       'src/wai/ma/algorithm/_PCA.py', 'src/wai/ma/algorithm/ica/_FastICA.py']
TRA = ['src/wai/ma/transformation/']

prop('C01', 'Training is independent of the object\'s history',
     'Successfully training an algorithm object gives exactly the model that a newly created object with the same '
     'parameter values gives on the same data. This holds whatever the object did before: earlier trainings on other '
     'data or shapes, failed or interrupted trainings, predictions, resets, parameter changes and reads. Training '
     'never changes the parameter values the user set.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'Every algorithm (regression, filter, component analysis), every history of public calls on one object, '
     'including calls aborted by a numeric failure or an interrupt at any point, every parameter setting and data set.',
     'The tests train one object once (a few train the same object on the same data again); no test trains on data of '
     'another shape, after a failure, or after a parameter round trip.',
     ALG + ['src/wai/ma/transformation/kernel/'],
     [('reset before every training', 'src/wai/ma/algorithm/pls/_AbstractPLS.py initialize(); reset() of every class'),
      ('reset on parameter change', 'src/wai/ma/core/_LoggingObject.py __setattr__'),
      ('refit on every transform', 'src/wai/ma/algorithm/_PCA.py, ica/_FastICA.py transform()')],
     state=[('model matrices', 'what a training leaves behind', 'attributes set in do_initialize/configure'),
            ('helper transformations', 'centring/standardising fitted during training', 'center_X, X_center, standardize_X ...')],
     observe=['predict', 'transform', 'get_matrix', 'get_loadings', 'serialised state', 'parameter attributes'])

prop('C02', 'A training that did not succeed never leaves a usable half-trained model',
     'After a training call that returned an error, raised, or was interrupted part-way, the object either refuses to '
     'predict and transform, or behaves exactly as one complete model: the one it held before the call or the fully '
     'trained new one. After an error or exception an object that refuses offers no model matrices either. A training that reports success always leaves an object that is marked trained and answers with the '
     'complete new model. A training without failure on complete, finite data within the limits the class declares '
     '(number of response columns, components) succeeds. In every case training again without the failure succeeds and gives the correct model.',
     ['fault_sequences', 'crash_points', 'histories', 'inputs'],
     'Every algorithm, trained or untrained beforehand, every point inside the training at which a numeric operation '
     'can fail or the caller can be interrupted, and every kind of rejected data.',
     'Tests never make a training fail; the only coverage is the success path of each algorithm.',
     ALG,
     [('trained flag set last', 'initialize() of AbstractPLS, GLSW, CCAFilter'),
      ('refusal when untrained', 'predict()/transform() guards'),
      ('error result propagated', 'do_initialize() return values, OPLS base model')],
     observe=['return value or exception of the training call', 'is_initialised', 'predict/transform', 'get_matrix'])

prop('C03', 'Transformations stick to the data they were configured on',
     'A transformation\'s outputs are always those of a new transformation with the current parameters configured on '
     'one single data set: the one of the last explicit configuration, or of the first use after creation, reset or '
     'a parameter change. Later transforms and inverse transforms of other data never change that configuration, and a '
     'configuration attempt that fails leaves the old, the new or no configuration, never a mixture. The row '
     'normaliser is the documented exception: it reconfigures on every matrix it sees.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'Every transformation class, every history of configure/transform/inverse/reset/parameter-change calls with data '
     'of changing shape, and a numeric failure inside any of them.',
     'Tests run configure-transform-inverse once on one data set; no histories, no failures.',
     TRA,
     [('configured flag and lazy configuration', 'src/wai/ma/transformation/_AbstractTransformation.py'),
      ('reset on parameter change', '__setattr__ of each transformation'),
      ('wrapped estimator replaced on configure', '_PowerTransformer.py, _QuantileTransformer.py, _RobustScaler.py')],
     observe=['transform', 'inverse_transform', 'get_means/get_std_devs', 'serialised state'])

prop('C04', 'The caller\'s data is never modified and never aliased into a model',
     'No call modifies the matrices passed to it, whether it returns, fails or is interrupted. Once a call has '
     'returned, changing the matrices that were passed in, or the matrix a prediction or transformation returned, has '
     'no effect on any later result of the object.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'Every public training, prediction, transformation, inverse transformation, filter and read-only matrix '
     'operation, every argument, every point at which the call can fail or be interrupted.',
     'Tests do not look at their inputs after a call, and never mutate inputs or outputs afterwards.',
     ALG + TRA + ['src/wai/ma/filter/', 'src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/matrix/helper.py'],
     [('work on copies', 'initialize() copies; do_transform() copies'),
      ('operators return new matrices', 'src/wai/ma/core/matrix/_Matrix.py')],
     observe=['bytes of the argument matrices', 'predict/transform after mutating arguments or results'])

prop('C05', 'Decomposition queries always describe the matrix as it is now',
     'Every eigenvalue, eigenvector and singular value query on a matrix returns what the same query returns on a '
     'new matrix with the same current contents. This holds after any sequence of in-place edits through the matrix '
     'API, earlier queries, edits of earlier query results, and failed queries or failed edits.',
     ['histories', 'inputs', 'fault_sequences'],
     'Every interleaving of in-place edits (element, row, column, vector arithmetic, diagonal fill), decomposition '
     'queries and decomposition failures on one matrix.',
     'Tests query freshly built matrices; no test edits a matrix after a query.',
     ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/matrix/helper.py'],
     [('cache reset on every edit', 'Matrix.set/set_row/set_column/vector_op_modify, helper.fill_diagonal'),
      ('lazy decomposition cache', 'Matrix.make_eigenvalue_decomposition, make_singular_value_decomposition'),
      ('copies handed out', 'get_eigenvectors, svd_U ...')],
     state=[('decomposition caches', 'lazily computed results for the current contents', 'Matrix attributes')],
     observe=['all eigen and SVD queries'])

prop('C06', 'Concurrent use of a trained object gives the sequential results',
     'Threads that share a trained algorithm, a configured transformation, a filter pipeline or an unmodified matrix '
     'and only predict, transform, invert, query or serialise get exactly the results they would get alone, under '
     'every interleaving. After all threads are done the object still answers as before. Objects that by design '
     'refit on every transform are outside this guarantee.',
     ['schedules', 'inputs', 'configurations'],
     'Every interleaving, at source-line and bytecode granularity, of two to four threads doing read-only operations '
     'on one shared object.',
     'All tests are single-threaded.',
     ALG + TRA + ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/_MultiFilter.py'],
     [('read paths keep intermediates in locals', 'do_predict/do_transform/do_inverse_transform'),
      ('idempotent lazy caches', 'Matrix decomposition caches, kernel parameters')],
     observe=['results of each thread\'s calls', 'results after the threads finished'])

prop('C07', 'Independent objects and the caller\'s process state are not disturbed',
     'Threads that each train and use their own objects get exactly the results they would get alone, under every '
     'interleaving. Seeded random generation depends only on its arguments, never on other random activity in the '
     'process. No library call disturbs the caller\'s own random number stream, floating-point error settings or other '
     'process-wide settings.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'Every interleaving of threads training separate objects, and every interleaving of library calls with the '
     'caller\'s own use of the process-wide random generators and settings, with calls that fail included.',
     'Tests are single-threaded and never draw random numbers around library calls.',
     ['src/wai/ma/core/matrix/factory.py', 'src/wai/ma/algorithm/pls/_KernelPLS.py',
      'src/wai/ma/algorithm/ica/_FastICA.py'] + ALG,
     [('explicit seeds', 'factory.rand/randn'), ('no module- or class-level mutable state', 'whole package')],
     observe=['results per thread', 'process-wide generator state', 'floating-point error settings'])

prop('C08', 'Saved state is complete or the failure is reported',
     'If saving or serialising an object returns normally, exactly the full binary encoding of its state has been '
     'written, whatever short writes happened on the way and whichever other thread creates the same directory at '
     'the same time. If the storage fails at any point the call raises and no file handle stays open. What a failed or '
     'interrupted save leaves on disk is the old file, the complete new one, or something that cannot be decoded as a '
     'complete state, and saving again afterwards works. An object with no state to save is refused without touching '
     'an existing file.',
     ['fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'Every serialisable object, every target path, every position of a full disk, I/O error, short write, failing '
     'open/flush/close/mkdir or crash, and every interleaving with a concurrent saver.',
     'Tests serialise to memory or to a healthy disk only.',
     ['src/wai/ma/core/_Serialisable.py', 'src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/algorithm/pls/_SIMPLS.py',
      'src/wai/ma/transformation/_Standardize.py', 'src/wai/ma/transformation/_SavitzkyGolay.py',
      'src/wai/ma/transformation/_Log.py'],
     [('directory creation tolerant of races', 'Serialisable.save_state'),
      ('context-managed file', 'Serialisable.save_state'),
      ('self-describing encoding', 'Matrix.serialise_state')],
     observe=['exception of save', 'bytes on disk', 'open handles'])

prop('C09', 'Matrix files are written and read completely or the failure is reported',
     'If writing a matrix as text returns normally, the target holds every row; if reading a rectangular numeric file '
     'returns normally, the matrix holds every row and cell of the file. Storage errors, full disks and failing closes at any point surface as '
     'exceptions, never as a shorter matrix or file presented as success, and every file the library opened is closed, '
     'while streams passed in by the caller stay open. A failed or interrupted write leaves the old contents or a '
     'beginning of the new. Short reads and writes never change the result, and a matrix written with full precision '
     'reads back identical.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'Every matrix, separator, header and number format, by file name or open stream, and every position of an I/O '
     'fault, short transfer or crash.',
     'Tests read a handful of resource files from a healthy disk.',
     ['src/wai/ma/core/matrix/helper.py'],
     [('context-managed files', 'helper.read/helper.write'), ('all lines collected before parsing', 'helper.read')],
     observe=['exceptions', 'file contents', 'open handles', 'matrix read back'])

prop('C10', 'Iterative training stops within its iteration limit',
     'Training always finishes - with a model, an error or an exception - and for iterative algorithms in a number of '
     'steps bounded by the iteration limit and the data size. This holds for data that never converges, contains NaN, '
     'infinite, constant or collinear values, and when a numeric operation silently yields NaN part-way.',
     ['inputs', 'fault_sequences', 'configurations'],
     'Every iterative algorithm, iteration limit, tolerance and data set, with NaN faults injected into any numeric '
     'operation; time is counted in library calls on a logical clock.',
     'Tests use converging data with default limits.',
     ['src/wai/ma/algorithm/pls/_NIPALS.py', 'src/wai/ma/algorithm/pls/_KernelPLS.py',
      'src/wai/ma/algorithm/pls/_PRM.py', 'src/wai/ma/algorithm/pls/_SparsePLS.py',
      'src/wai/ma/algorithm/ica/_FastICA.py', 'src/wai/ma/core/utils.py'],
     [('iteration counters in every loop', 'nipals_loop, KernelPLS inner loop, PRM loops, FastICA.deflation/parallel')],
     observe=['number of library calls until the training call returns'])

prop('C11', 'Parameter changes are all-or-nothing and invalidate the model',
     'Assigning an invalid parameter value is rejected with an error and leaves the parameters and the trained model '
     'exactly as they were. Assigning a valid value takes effect and a model trained under the old value is never '
     'used again: the algorithm refuses to predict or transform until it is retrained, and a transformation answers '
     'with the new value in force. An assignment that is interrupted leaves the old value, or the new value and no '
     'model of the old one.',
     ['histories', 'configurations', 'inputs', 'fault_sequences'],
     'Every parameter of every algorithm and transformation, valid and invalid values, in every life-cycle state, '
     'mixed with trainings, failures and reads.',
     'Tests set parameters only on new objects and only to valid values.',
     ['src/wai/ma/core/_LoggingObject.py'] + ALG[2:] + TRA,
     [('validators run before assignment', '__setattr__'), ('reset on accepted change', '__setattr__')],
     observe=['ValueError', 'parameter attributes', 'is_initialised', 'predict/transform results'])

prop('C12', 'A failed or interrupted use of a trained object leaves it intact',
     'When a prediction, transformation, inverse transformation, query or serialisation on a trained or configured '
     'object fails or is interrupted at any point, that call returns no result, and every later call gives exactly '
     'what it would have given had the failed call never been made.',
     ['fault_sequences', 'crash_points', 'histories', 'inputs'],
     'Every trained algorithm, configured transformation, filter pipeline and matrix, every read-only operation, and '
     'every point inside it at which a numeric operation can fail or the caller can be interrupted.',
     'Tests never make a prediction or transformation fail.',
     ALG + TRA + ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/_MultiFilter.py'],
     [('read paths keep intermediates in locals', 'do_predict/do_transform/do_inverse_transform'),
      ('caches assigned only when complete', 'Matrix decomposition caches')],
     observe=['later predictions, transformations, matrices and serialised state'])

prop('C13', 'Results depend on parameters and data only, not on the environment of the call',
     'The same objects with the same parameters, given the same data, give the same results up to rounding in every '
     'process and environment: whatever the hash seed, interpreter options (-O), clock, process number, environment '
     'variables, previous use of shared random streams, contents of fresh memory, garbage collection, calling thread, '
     'numpy error, print and warning settings (none of them raising), memory layout of the matrices, re-used or new '
     'matrices, debug output on or off, and with or without a console or current directory. This covers models, '
     'predictions, transformations, inverses, matrix operations, factory matrices, text and serialised state, and '
     'which calls are refused. (QuantileTransformer with random_state None asks for the shared random stream.)',
     ['inputs', 'configurations', 'histories'],
     'Every class, parameter setting and data set, and every pair of environments of that kind.',
     'Tests run in one environment, where a clock, a hash order or left-over memory happens to have one value.',
     ALG + TRA + ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/matrix/helper.py',
                  'src/wai/ma/core/matrix/factory.py', 'src/wai/ma/core/_LoggingObject.py'],
     [('explicitly seeded private random streams', 'factory.rand/randn, KernelPLS, FastICA'),
      ('fresh matrices are filled', 'factory.zeros/filled'), ('debug switches only output', 'LoggingObject.debug')],
     observe=['models, predictions, transformations, texts, serialised bytes and exception types'])
prop('C14', 'A copied or pickled object continues like the original',
     'Every algorithm, transformation, filter, kernel and matrix can be copied with copy.deepcopy and pickled (any '
     'protocol from 2) at any point of its life. The restored object - in the same process, or in a new one after the '
     'old process has ended - answers every later call (reads, training again, parameter changes, resets, edits, '
     'decomposition queries) exactly as the original would have. Original and copy are independent of each other '
     'afterwards. An attempt to copy or pickle that fails part-way (stream or memory failure, interrupt) leaves the '
     'original undisturbed.',
     ['histories', 'crash_points', 'fault_sequences', 'inputs', 'configurations'],
     'Every class, every history before and after the copy, every protocol, chains of several moves, and every step '
     'at which the copying can fail.',
     'Tests never copy or pickle an object.',
     ALG + TRA + ['src/wai/ma/transformation/kernel/_AbstractKernel.py', 'src/wai/ma/core/matrix/_Matrix.py',
                  'src/wai/ma/core/_MultiFilter.py', 'src/wai/ma/core/_LoggingObject.py'],
     [('all state is held in plain attributes', 'all classes'),
      ('automatic gamma recognised by value, not identity', 'RBFKernel, PolyKernel')],
     observe=['every answer after the copy, of the copy and of the original'])

NA = 'A pure function of its input: no schedule, fault, clock, I/O or history takes part in it.'
prop('C20', 'Inverse transformations undo the transformation',
     'For every data set in the domain of an invertible transformation, the inverse transformation of the '
     'transformed data equals the data up to rounding.',
     ['inputs'], 'Every invertible transformation and data set.',
     'The tests sample one data set per transformation.', TRA,
     [('do_inverse_transform', 'each transformation class')])
prop('C21', 'Matrix algebra and decompositions are numerically correct',
     'Products, sums, norms, inverses, eigen and singular value decompositions equal their mathematical definition up '
     'to rounding for every well-conditioned matrix.',
     ['inputs'], 'Every matrix.', 'The tests sample a few matrices.',
     ['src/wai/ma/core/matrix/_Matrix.py'], [('delegation to numpy', 'Matrix methods')])
prop('C22', 'Regression models satisfy their defining equations',
     'The matrices of each partial least squares variant satisfy the equations of the published algorithm for every '
     'training set.',
     ['inputs', 'configurations'], 'Every training set and number of components.',
     'The tests compare with stored references for one data set.',
     ['src/wai/ma/algorithm/pls/'], [('do_perform_initialization', 'each algorithm')])
prop('C23', 'Resampling filters compute the documented columns',
     'Downsampling keeps exactly the documented columns and equidistant resampling the linear interpolation for every '
     'matrix and setting.',
     ['inputs', 'configurations'], 'Every matrix and filter setting.', 'The tests sample a few settings.',
     ['src/wai/ma/filter/'], [('transform', 'src/wai/ma/filter/')])
prop('C24', 'Incompatible shapes are rejected',
     'Operations on matrices of incompatible shapes raise an error instead of returning a value.',
     ['inputs'], 'Every pair of shapes.', 'The tests sample a few pairs.',
     ['src/wai/ma/core/matrix/_Matrix.py'], [('shape guards', 'must_be_* helpers')])
prop('C25', 'Sorting helpers return a sorting permutation',
     'The index sort returns a permutation that orders its input for every list of numbers.',
     ['inputs'], 'Every list of numbers.', 'The tests do not exercise it directly.',
     ['src/wai/ma/core/utils.py'], [('quick_sort', 'src/wai/ma/core/utils.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
