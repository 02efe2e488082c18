"""
What can be simulated: every algorithm, transformation and filter of the library, with its parameters, the data it
is trained on and the read-only operations it offers.  Everything here is addressed by JSON-able names, so that a
scenario file is explicit.  Library classes are resolved lazily (inside the forked process).
"""
import io
import sys
import threading

import numpy as np


# --------------------------------------------------------------------------------------------------------------------
# library access
# --------------------------------------------------------------------------------------------------------------------
class _Lib:
    _loaded = False

    def load(self):
        if self._loaded:
            return self
        from wai.ma.core.matrix import Matrix, factory, helper
        from wai.ma.core import PreprocessingType, MultiFilter, NAN, utils
        self.utils = utils
        import wai.ma.algorithm.pls as pls
        import wai.ma.algorithm.glsw as glsw
        import wai.ma.algorithm.ica as ica
        import wai.ma.algorithm.ica.approxfun as approxfun
        import wai.ma.algorithm as algorithm
        import wai.ma.transformation as trans
        import wai.ma.transformation.kernel as kernel
        from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter
        from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased
        from wai.ma.algorithm.glsw._YGradientGLSW import SavitzkyGolayFilter
        from wai.ma.filter._Downsample import Downsample
        from wai.ma.filter._Equidistance import Equidistance
        from wai.ma.algorithm.pls._DIPLS import ModelAdaptionStrategy
        self.Matrix, self.factory, self.helper = Matrix, factory, helper
        self.PreprocessingType, self.MultiFilter, self.NAN = PreprocessingType, MultiFilter, NAN
        self.pls, self.glsw, self.ica, self.approxfun = pls, glsw, ica, approxfun
        self.algorithm, self.trans, self.kernel = algorithm, trans, kernel
        self.ModelAdaptionStrategy = ModelAdaptionStrategy
        self.classes = {}
        for mod, names in ((pls, ['PLS1', 'VCPLS', 'KernelPLS', 'NIPALS', 'CCARegression', 'SIMPLS', 'DIPLS', 'OPLS',
                                  'SparsePLS', 'PRM']),
                           (glsw, ['GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO']),
                           (ica, ['FastICA']),
                           (algorithm, ['PCA', 'CCAFilter']),
                           (trans, ['Center', 'Standardize', 'FFT', 'Log', 'PowerTransformer', 'QuantileTransformer',
                                    'RobustScaler', 'RowNorm', 'SavitzkyGolay', 'SavitzkyGolay2', 'PassThrough'])):
            for n in names:
                self.classes[n] = getattr(mod, n)
        self.classes['MSC'] = trans.MultiplicativeScatterCorrection
        self.classes['YGradFilter'] = YGradientGLSWSavitzkyGolayFilter
        self.classes['GLSWSavGol'] = SavitzkyGolayFilter
        self.RangeBased = RangeBased

        # Known finding C01:DIPLS:stale-centering (pinned by the repository's own regression references): DIPLS keeps
        # the centering of its first training.  All checks but the one of the finding simulate DIPLS with that defect
        # neutralised, so that other violations of the class stay visible.
        class DIPLS(pls.DIPLS):
            def reset(self):
                super().reset()
                for n, v in list(vars(self).items()):
                    if isinstance(v, trans.Center):
                        v.reset()
        self.classes['DIPLSraw'] = pls.DIPLS
        self.classes['DIPLS'] = DIPLS
        self.Downsample, self.Equidistance = Downsample, Equidistance
        self._loaded = True
        return self


L = _Lib()


LAYOUT = None        # how matrices are laid out where the caller does not say
WIGGLE = None        # generator of relative changes in the size of rounding errors


def M(array, layout=None):
    """A Matrix over its own copy of the array; layout: None (rows), 'F' (columns), 'S' (a strided view), 'N' (stored
    backwards), 'R' (read-only), 'U' (at an odd address), 'V' (rows of a wider table)."""
    a = np.array(array, dtype=np.float64, copy=True)
    layout = layout or LAYOUT
    if WIGGLE is not None:
        a = a * (1.0 + 1e-12 * WIGGLE.standard_normal(a.shape))
    if layout == 'F':
        a = np.asfortranarray(a)
    elif layout == 'S':
        b = np.full((2 * a.shape[0], 2 * a.shape[1]), -7.25)
        b[::2, ::2] = a
        a = b[::2, ::2]
    elif layout == 'N':
        a = np.array(a[::-1, ::-1])[::-1, ::-1]
    elif layout == 'R':
        a.flags.writeable = False
    elif layout == 'U':
        b = np.zeros(a.nbytes + 1, np.uint8)[1:].view(np.float64).reshape(a.shape)
        b[...] = a
        a = b
    elif layout == 'V':
        b = np.full((a.shape[0], a.shape[1] + 2), 1e9)
        b[:, 1:-1] = a
        a = b[:, 1:-1]
    return L.Matrix(a)


# a caller that keeps its matrices and fills them with new contents for the next call (None: new matrices every time)
POOL = None


def reuse(on, traced=False):
    global POOL
    POOL = {'traced': traced} if on else None


def given(role, array, layout=None):
    """The matrix handed to a call in this role."""
    if POOL is None or (sys.gettrace() is not None and not POOL['traced']):
        return M(array, layout)
    # what an object was trained on, it is used on later
    key = ('a0' if role == 'X' else role, np.shape(array), layout, threading.current_thread().name)
    m = POOL.get(key)
    if m is None:
        m = POOL[key] = M(array, layout)
    else:
        m.data[...] = array
        m.reset_cache()
    return m


# --------------------------------------------------------------------------------------------------------------------
# parameters
# --------------------------------------------------------------------------------------------------------------------
def decode(value):
    """JSON parameter value -> what the library is given."""
    if isinstance(value, dict):
        if 'prep' in value:
            return getattr(L.PreprocessingType, value['prep'])
        if 'defl' in value:
            return getattr(L.pls.DeflationMode, value['defl'])
        if 'strategy' in value:
            return getattr(L.ModelAdaptionStrategy, value['strategy'])
        if 'alg' in value:
            return getattr(L.ica.Algorithm, value['alg'])
        if 'fun' in value:
            f = getattr(L.approxfun, value['fun'])()
            for n, v in value.get('with', {}).items():
                setattr(f, n, v)
            return f
        if 'mode' in value:
            return getattr(L.trans.OutputMode, value['mode'])
        if 'kernel' in value:
            k = getattr(L.kernel, value['kernel'])()
            for n, v in value.get('with', {}).items():
                setattr(k, n, v)
            return k
        if 'base' in value:
            o = L.classes[value['base']]()
            for n, v in value.get('with', {}).items():
                setattr(o, n, decode(v))
            return o
        if 'tuple' in value:
            return tuple(value['tuple'])
        if 'np' in value:
            return np.float64(value['np'])
        if 'nan' in value:
            return L.NAN              # the library's marker for 'derive it from the data'
        raise ValueError(value)
    return value


def encode_observed(value):
    """What the object reports for a parameter -> comparable value."""
    if isinstance(value, (bool, int, float, str, type(None))):
        return value
    if isinstance(value, (np.floating, np.integer)):
        return float(value)
    if isinstance(value, tuple):
        return list(value)
    if hasattr(value, 'name') and hasattr(value, 'value'):
        return 'enum:' + value.name
    # a parameter object: its own settings are part of what the caller chose
    return ['obj:' + type(value).__name__] + [[n, encode_observed(getattr(value, n))] for n in SETTINGS
                                              if hasattr(value, n)]


SETTINGS = ('gamma', 'degree', 'coef_0', 'alpha', 'num_components', 'max_iter', 'tol', 'preprocessing_type', 'lambda_')


PREP = [{'prep': 'NONE'}, {'prep': 'CENTER'}, {'prep': 'STANDARDIZE'}]
COMP = [1, 2, 3, 1, 2, 3, 6]       # 6: sometimes more than the data can give
KERNELS = [{'kernel': 'RBFKernel'}, {'kernel': 'RBFKernel', 'with': {'gamma': 0.3}}, {'kernel': 'LinearKernel'},
           {'kernel': 'PolyKernel'}, {'kernel': 'PolyKernel', 'with': {'degree': 2, 'coef_0': 0.5, 'gamma': 0.4}}]
FUNS = [{'fun': 'LogCosH'}, {'fun': 'Exponential'}, {'fun': 'Cube'}]
BASES = [{'base': 'PLS1', 'with': {'num_components': 1}}, {'base': 'SIMPLS', 'with': {'num_components': 1}},
         {'base': 'NIPALS', 'with': {'num_components': 1}},
         {'base': 'PLS1', 'with': {'num_components': 2}}, {'base': 'VCPLS', 'with': {'num_components': 1}},
         {'base': 'KernelPLS', 'with': {'num_components': 1, 'max_iter': 6}}]

# kind -> (parameter -> valid values, parameter -> values that must be rejected)
ALG_PARAMS = {
    'PLS1': (dict(preprocessing_type=PREP, num_components=COMP), {}),
    'VCPLS': (dict(preprocessing_type=PREP, num_components=COMP, lambda_=[0.5, 1.0, 2.0]), {}),
    'KernelPLS': (dict(preprocessing_type=PREP, num_components=COMP, kernel=KERNELS, max_iter=[3, 6, 10],
                       tol=[1e-6, 1e-3]), dict(max_iter=[-1, -7], tol=[-1e-3, -2.0])),
    'NIPALS': (dict(preprocessing_type=PREP, num_components=COMP, max_iter=[0, 4, 8], tol=[1e-6, 1e-2],
                    norm_Y_weights=[True, False], deflation_mode=[{'defl': 'CANONICAL'}, {'defl': 'REGRESSION'}]),
               dict(max_iter=[-1, -100], tol=[-1e-6, -1.0])),
    'CCARegression': (dict(preprocessing_type=PREP, num_components=[1, 2], max_iter=[0, 4, 8], tol=[1e-6, 1e-2],
                           norm_Y_weights=[True, False]),
                      dict(max_iter=[-1, -100], tol=[-1e-6, -1.0])),
    'SIMPLS': (dict(preprocessing_type=PREP, num_components=COMP, num_coefficients=[0, 1, 2, 3]), {}),
    'DIPLS': (dict(preprocessing_type=PREP, num_components=COMP, lambda_=[0.5, 1.0, 3.0]),
              dict(lambda_=[0.0, 1e-9])),
    'OPLS': (dict(preprocessing_type=PREP, num_components=[1, 2], base_PLS=BASES), {}),
    'SparsePLS': (dict(preprocessing_type=PREP, num_components=COMP, lambda_=[0.0, 0.2, 0.5], max_iter=[0, 4, 8],
                       tol=[1e-7, 1e-2]), dict(max_iter=[-1], tol=[-0.5], lambda_=[-0.1, -5.0])),
    'PRM': (dict(preprocessing_type=PREP, num_components=COMP, C=[2.0, 4.0, -3.0], max_iter=[1, 4, 8],
                 tol=[1e-6, 1e-2], num_SIMPLS_coefficients=[-1, 0, 2]),
            dict(C=[0.0, 1e-12], max_iter=[-1], tol=[-1e-9])),
    'CCAFilter': (dict(kcca=[1, 2], lambda_X=[1e-2, 0.1, 1.0], lambda_Y=[1e-2, 0.2]), dict(kcca=[0, -1])),
    'GLSW': (dict(alpha=[1e-3, 0.1, 2.0]), dict(alpha=[0, -1e-3])),
    'EPO': (dict(alpha=[1e-3, 0.1], N=[1, 2, 3, 5, 9]), dict(alpha=[0, -1e-3], N=[0, -2])),
    'YGradientGLSW': (dict(alpha=[1e-3, 0.1, 2.0]), dict(alpha=[0, -1e-3])),
    'YGradientEPO': (dict(alpha=[1e-3, 0.1], N=[1, 2, 3, 5, 9]), dict(alpha=[0, -1e-3], N=[0, -2])),
    'PCA': (dict(variance=[0.5, 0.8, 0.95, 0.99], max_columns=[-1, 1, 2, 3, 9], center=[True, False]),
            dict(variance=[0.0, 1.0, -0.5, 2.0], max_columns=[0, -2])),
    'FastICA': (dict(num_components=[1, 2, 3, 1, 2, 3, 9], max_iter=[0, 5, 10], tol=[1e-4, 1e-2], whiten=[True, True, False],
                     fun=FUNS, algorithm=[{'alg': 'DEFLATION'}, {'alg': 'PARALLEL'}]),
                dict(num_components=[0, -1], max_iter=[-1], tol=[-1.0])),
}
ALG_KINDS = list(ALG_PARAMS)
SUPERVISED = [k for k in ALG_KINDS if k not in ('PCA', 'FastICA')]
PREDICTORS = ['PLS1', 'VCPLS', 'KernelPLS', 'NIPALS', 'CCARegression', 'SIMPLS', 'DIPLS', 'OPLS', 'SparsePLS', 'PRM']
# parameters used when a scenario says nothing: the library's defaults do not fit small data
ALG_BASE = {
    'PLS1': dict(num_components=2), 'VCPLS': dict(num_components=2), 'KernelPLS': dict(num_components=2, max_iter=8),
    'NIPALS': dict(num_components=2, max_iter=8), 'CCARegression': dict(num_components=1, max_iter=8),
    'SIMPLS': dict(num_components=2), 'DIPLS': dict(num_components=2),
    'OPLS': dict(num_components=1, base_PLS=BASES[0]), 'SparsePLS': dict(num_components=2, max_iter=8),
    'PRM': dict(num_components=2, max_iter=6), 'CCAFilter': {}, 'GLSW': {}, 'EPO': dict(N=2), 'YGradientGLSW': {},
    'YGradientEPO': dict(N=2), 'PCA': {}, 'FastICA': dict(num_components=2, max_iter=8),
}

TRA_PARAMS = {
    'Center': ({}, {}),
    'Standardize': ({}, {}),
    'FFT': (dict(orthonormalisation=[True, False],
                 output_mode=[{'mode': 'REAL_AND_IMAG_PAIRS'}, {'mode': 'AMPL_ANGLE_PAIRS'},
                              {'mode': 'AMPLITUDE_ONLY'}, {'mode': 'PHASE_ANGLE_ONLY'}, 1, 2]),
            dict(output_mode=[5, 0, -1])),
    'Log': (dict(base=[2.0, 10.0, 0.5], offset=[0.5, 1.0, 3.0, 0.0]), dict(base=[1.0, 0.0, -2.0])),
    'PowerTransformer': (dict(method=['yeo-johnson', 'box-cox'], standardise=[True, False]),
                         dict(method=['log', ''])),
    'QuantileTransformer': (dict(n_quantiles=[3, 4, 6], output_distribution=['uniform', 'normal'],
                                 random_state=[0, 7], subsample=[100000, 50000, 6],
                                 ignore_implicit_zeroes=[True, False]),
                            dict(output_distribution=['gauss', ''])),
    'RobustScaler': (dict(with_centering=[True, False], with_scaling=[True, False],
                          quantile_range=[{'tuple': [25.0, 75.0]}, {'tuple': [10.0, 60.0]}, {'tuple': [5.0, 95.0]}]),
                     dict(quantile_range=[{'tuple': [0.0, 50.0]}, {'tuple': [60.0, 40.0]}, {'tuple': [20.0, 100.0]}])),
    'RowNorm': ({}, {}),
    'SavitzkyGolay': (dict(polynomial_order=[2, 3], derivative_order=[0, 1, 2], num_points_left=[1, 2],
                           num_points_right=[1, 2]),
                      dict(polynomial_order=[1, -1], derivative_order=[-1], num_points_left=[-1],
                           num_points_right=[-2])),
    'SavitzkyGolay2': (dict(polynomial_order=[2, 3], derivative_order=[0, 1, 2], num_points=[1, 2]),
                       dict(polynomial_order=[1, 0], derivative_order=[-1], num_points=[-1])),
    'MSC': (dict(prefilter=['Center', 'PassThrough', 'Log']), {}),      # of its correction; never reassigned
    'PassThrough': ({}, {}),
    'YGradFilter': ({}, {}),
    'GLSWSavGol': ({}, {}),
}
TRA_BASE = {k: {} for k in TRA_PARAMS}
TRA_BASE['QuantileTransformer'] = dict(n_quantiles=4, random_state=3)
TRA_BASE['SavitzkyGolay'] = dict(num_points_left=2, num_points_right=2)
TRA_BASE['SavitzkyGolay2'] = dict(num_points=2)
TRA_BASE['FFT'] = dict(output_mode={'mode': 'REAL_AND_IMAG_PAIRS'})
TRA_KINDS = list(TRA_PARAMS)
NO_INVERSE = ('SavitzkyGolay', 'SavitzkyGolay2', 'MSC', 'YGradFilter', 'GLSWSavGol')
# kinds whose configuration depends on the data
TRA_LEARNING = ['Center', 'Standardize', 'PowerTransformer', 'QuantileTransformer', 'RobustScaler', 'MSC']


# filters: name -> (valid, invalid parameters); MultiFilter is a pipeline of freshly created parts
FIL_PARAMS = {
    'Downsample': (dict(start_index=[0, 1, 2], step=[1, 2, 3]), {}),
    'Equidistance': (dict(num_samples=[2, 5, 9]), dict(num_samples=[1, 0, -3])),
    'MultiFilter': ({}, {}),
    # kernels: used like filters
    'LinearKernel': ({}, {}),
    'RBFKernel': (dict(gamma=[0.2, 1.0, {'np': 0.5}, {'nan': 1}]), {}),
    'PolyKernel': (dict(degree=[1, 2, 3], coef_0=[0.0, 0.5, 1.0], gamma=[0.3, 1.0, {'nan': 1}]), dict(degree=[0, -2])),
}
# kinds that can be used on data of another width than before
ANY_WIDTH = ('FFT', 'Log', 'RowNorm', 'SavitzkyGolay', 'SavitzkyGolay2', 'PassThrough', 'YGradFilter', 'GLSWSavGol',
             'Downsample', 'Equidistance', 'LinearKernel', 'RBFKernel', 'PolyKernel')
KERNEL_KINDS = ['LinearKernel', 'RBFKernel', 'PolyKernel']
FIL_KINDS = list(FIL_PARAMS)
FIL_BASE = {'Downsample': dict(start_index=1, step=2), 'Equidistance': dict(num_samples=6), 'MultiFilter': {},
            'LinearKernel': {}, 'RBFKernel': {}, 'PolyKernel': {}}
PIPES = [['Standardize', 'SavitzkyGolay2', 'Downsample'], ['Center', 'RowNorm', 'Equidistance'],
         ['Log', 'Standardize'], ['RowNorm', 'SavitzkyGolay', 'Center'], ['Downsample', 'RobustScaler'],
         ['FFT', 'Center', 'MultiFilter']]
SERIALISABLE = ('SIMPLS', 'Standardize', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2', 'Matrix')
ALL_KINDS = None   # set below


def params_of(kind):
    if kind in FIL_PARAMS:
        return FIL_PARAMS[kind][0]
    return (ALG_PARAMS.get(kind) or TRA_PARAMS[kind])[0]


def invalid_of(kind):
    if kind in FIL_PARAMS:
        return FIL_PARAMS[kind][1]
    return (ALG_PARAMS.get(kind) or TRA_PARAMS[kind])[1]


ALL_KINDS = ALG_KINDS + TRA_KINDS + FIL_KINDS


def base_of(kind):
    if kind in FIL_BASE:
        return FIL_BASE[kind]
    return ALG_BASE[kind] if kind in ALG_BASE else TRA_BASE[kind]


def create(kind, params, cls=None):
    L.load()
    if kind == 'Downsample':
        o = L.Downsample()
        for n, v in params.items():
            setattr(o, n, decode(v))
        return o
    if kind == 'Equidistance':
        return L.Equidistance(decode(params['num_samples']))
    if kind == 'MultiFilter':
        return L.MultiFilter([create(k, base_of(k)) for k in PIPES[params.get('pipe', 0)]])
    if kind in KERNEL_KINDS:
        o = getattr(L.kernel, kind)()
        for n, v in params.items():
            setattr(o, n, decode(v))
        return o
    obj = L.classes[cls or kind]()
    if kind == 'MSC':
        corr = L.RangeBased()
        corr.ranges = [(0.0, 2.5), (2.5, 9.0)]
        obj.correction = corr
        pre = params.get('prefilter')
        if pre:
            corr.prefilter = L.classes[pre]()
            corr.prefilter.configure(M(np.arange(12.0).reshape(6, 2)))
        params = {}
    for n, v in params.items():
        setattr(obj, n, decode(v))
    return obj


def set_param(obj, name, value):
    setattr(obj, name, decode(value))


def read_params(kind, obj):
    out = {}
    for n in params_of(kind):
        if kind == 'MSC':
            continue
        try:
            out[n] = encode_observed(getattr(obj, n))
        except Exception as e:  # noqa
            out[n] = 'exc:' + type(e).__name__
    return out


# --------------------------------------------------------------------------------------------------------------------
# data
# --------------------------------------------------------------------------------------------------------------------
def _mat(rng, n, p, lo=None):
    x = rng.standard_normal((n, p)) * rng.uniform(0.5, 2.0, (1, p)) + rng.uniform(-1, 1, (1, p))
    if lo is not None:
        x = np.abs(x) + lo
    return x


def make_data(kind, d):
    """d: {'seed': int, 'n': rows, 'p': columns, 'v': variant, 'sc': scale} -> dict of arrays"""
    out = _make_data(kind, d)
    if d.get('tw'):
        for n, a in out.items():
            if isinstance(a, np.ndarray):
                out[n] = tweak(d['tw'], n, a)
    if d.get('sc'):
        for n, a in out.items():
            if isinstance(a, np.ndarray):
                out[n] = a * d['sc']
    return out


def tweak(how, name, a):
    """Data that is special in some way, but ordinary otherwise."""
    if how == 'int':
        return np.round(a * 4)
    if how == 'centred':
        return a - a.mean(axis=0)
    if how == 'dup':
        return np.repeat(a[::2], 2, axis=0)[:len(a)]
    if how == 'binary' and name.startswith('y'):
        return (a > np.median(a, axis=0)).astype(float)
    if how == 'positive':
        return np.abs(a) + 0.1
    if how == 'sorted':
        return np.sort(a, axis=0)
    if how == 'mirror':            # mean exactly zero
        h = len(a) // 2
        return np.concatenate([a[:h], np.zeros((len(a) % 2, a.shape[1])), -a[:h]])
    if how == 'one':
        return a / np.max(np.abs(a))
    return a


def _make_data(kind, d):
    rng = np.random.Generator(np.random.PCG64([d['seed'], 77]))
    n, p, v = d['n'], d['p'], d.get('v', '')
    out = {}
    if kind in ALG_KINDS:
        X = _mat(rng, n, p)
        b = rng.uniform(0.3, 1.5, (p, 1)) * rng.choice([-1.0, 1.0], (p, 1))
        y = X @ b + 0.2 * rng.standard_normal((n, 1)) + rng.uniform(-2, 2)
        T = _mat(rng, d.get('tn', 4), p)
        if kind in ('NIPALS', 'CCARegression', 'KernelPLS', 'CCAFilter'):
            m = d.get('m', 2)
            B = rng.standard_normal((p, m))
            y = X @ B + 0.3 * rng.standard_normal((n, m)) + rng.uniform(-2, 2, (1, m))
            if kind in ('NIPALS', 'KernelPLS') and 'm' not in d and d['seed'] % 3 == 0:
                y = y[:, :1]
        if kind in ('GLSW', 'EPO'):
            y = X + 0.5 * rng.standard_normal((n, p))
        if kind == 'DIPLS':
            out['strategy'] = ['unsup', 'sup', 'semi', 'plain'][d.get('s', d['seed'] % 3)]
            out['Xt'] = _mat(rng, n, p)
            out['yt'] = out['Xt'] @ b + 0.2 * rng.standard_normal((n, 1))
            out['Xu'] = _mat(rng, max(n - 2, 2), p)
        if kind == 'FastICA':
            S = np.c_[tuple(np.sign(np.sin((j + 1.3) * np.linspace(0, 6, n) + j)) if j % 2 else
                            rng.uniform(-1, 1, n) for j in range(p))]
            X = S @ (rng.standard_normal((p, p)) + 2 * np.eye(p)) + 0.01 * rng.standard_normal((n, p))
        out['X'], out['y'], out['T'] = X, y, T
        if v == 'rows':          # row mismatch
            out['y'] = out['y'][:-2]
        elif v == 'cols':        # too many response columns
            out['y'] = np.c_[out['y'], out['y'][:, :1] * 2 + 1, out['y'][:, :1] - 3]
        elif v == 'zero':
            out['X'] = np.zeros_like(X)
        elif v == 'zeroy':
            out['y'] = np.zeros_like(out['y'])
        elif v == 'nan':
            out['X'][n // 2, p // 2] = np.nan
        elif v == 'nany':
            out['y'][n // 2, 0] = np.nan
        elif v == 'inf':
            out['X'][0, 0] = np.inf
        elif v == 'const':
            out['X'][:, 0] = 2.5
        elif v == 'coll':
            out['X'][:, -1] = out['X'][:, 0]
        elif v == 'big':
            out['X'] = X * 1e150
        elif v == 'none':
            out['y'] = None
        elif v == 'outlier':     # makes robust/iterative weights oscillate
            out['y'] = np.array(out['y'])
            out['y'][0] += 50.0
        elif v == 'one' and kind == 'DIPLS':
            out['Xt'], out['yt'] = out['Xt'][:1], out['yt'][:1]
        return out
    # transformations and filters
    lo = 0.2 if kind in ('Log', 'PowerTransformer', 'MultiFilter') else None
    X = _mat(rng, n, p, lo)
    if kind == 'MSC':
        wave = np.sort(rng.uniform(0, 8, (n, 1)), axis=0)
        X[:, :1] = wave
    if kind == 'RowNorm' and d['seed'] % 4 == 0:
        X[d['seed'] % n] = 2.5           # nothing to divide by
    elif kind in ('Standardize', 'RobustScaler') and d['seed'] % 5 == 0:
        X[:, d['seed'] % p] = 2.5
    if v == 'const':
        X[:, 0] = 1.5
    elif v == 'nan':
        X[0, p - 1] = np.nan
    elif v == 'inf':
        X[0, p - 1] = np.inf
    elif v == 'neg':
        X[0, 0] = -50.0
    elif v == 'text':
        pass
    if d.get('tn') is not None and d['tn'] <= n:
        X = X[:d['tn']]
    return {'X': X}


# --------------------------------------------------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------------------------------------------------
def train_args(kind, data, layout=None):
    """The matrices handed to the training call (kept, so that they can be inspected afterwards)."""
    names = {'PCA': ['X'], 'FastICA': ['X']}.get(kind, ['X', 'y'])
    if kind == 'DIPLS':
        names = {'unsup': ['X', 'Xt', 'y'], 'sup': ['X', 'Xt', 'y', 'yt'],
                 'semi': ['X', 'Xt', 'Xu', 'y', 'yt'], 'plain': ['X', 'y']}[data['strategy']]
    return [None if data[n] is None else given(n, data[n], layout) for n in names]


def train(kind, obj, data, args=None):
    """Runs the training call; returns None on success, an error string, or raises."""
    if args is None:
        args = train_args(kind, data)
    if kind == 'DIPLS':
        f = {'unsup': obj.initialize_unsupervised, 'sup': obj.initialize_supervised,
             'semi': obj.initialize_semisupervised, 'plain': obj.initialize}[data['strategy']]
        return f(*args)
    if kind in ('PCA', 'FastICA'):
        obj.transform(args[0])
        return None
    return obj.initialize(*args)


def prepare(kind, obj, data, args=None):
    """Makes an object ready for read-only use: trains, configures or runs the pipeline once."""
    if kind in ALG_KINDS:
        return train(kind, obj, data, args)
    m = args[0] if args else given('a0', data['X'])
    if kind in TRA_KINDS:
        obj.configure(m)
    elif kind == 'MultiFilter':
        obj.transform(m)
    return None


def prepare_args(kind, data, layout=None):
    return train_args(kind, data, layout) if kind in ALG_KINDS else [given('a0', data['X'], layout)]


def well_posed(kind, params, d):
    """Data and settings within what the class declares to accept: training on them has to succeed."""
    if d.get('v') or d.get('sc') or d.get('tw') or d['n'] < 6 or d['p'] >= d['n'] or d.get('s') == 3 or kind == 'OPLS' and params['base_PLS']['base'] == 'DIPLS':
        return False
    if kind in ('EPO', 'YGradientEPO'):
        return params.get('N', 5) <= d['p']
    if kind == 'CCAFilter':
        return params.get('kcca', 1) <= min(d['p'], d.get('m', 2))
    return params.get('num_components', 2) <= 3


def arr(m):
    """Observation of a Matrix (or None)."""
    if m is None:
        return None
    if hasattr(m, 'data') and not isinstance(m, np.ndarray):
        return np.array(m.data)
    return np.array(m)


def _serial(obj):
    s = io.BytesIO()
    obj.serialise_state(s)
    return s.getvalue()


def read_ops(kind):
    """Names of the read-only operations on a trained algorithm / configured transformation."""
    ops = []
    if kind in PREDICTORS:
        ops += ['predict', 'transform', 'matrices', 'loadings', 'str']
        if kind in ('NIPALS', 'CCARegression'):
            ops.append('transform_response')
        if kind == 'SIMPLS':
            ops.append('serial')
    elif kind == 'CCAFilter':
        ops += ['transform', 'transform_response', 'str']
    elif kind in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        ops += ['transform', 'str']
    elif kind == 'PCA':
        ops += ['attrs', 'coefficients', 'str']
    elif kind == 'FastICA':
        ops += ['attrs', 'reconstruct', 'str']
    elif kind in KERNEL_KINDS:
        ops += ['gram', 'cross', 'vector', 'str']
    elif kind in FIL_KINDS:
        ops += ['transform']
    else:
        ops += ['transform']
        if kind not in NO_INVERSE:
            ops.append('inverse')
        if kind in ('Standardize', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2'):
            ops.append('serial')
        if kind in ('Standardize', 'RowNorm'):
            ops.append('means')
        ops.append('quick')
    return ops


ARG_OPS = ('predict', 'transform', 'transform_response', 'inverse', 'quick', 'gram')


def method(obj, op):
    """The library function behind an operation that takes one matrix."""
    if op == 'transform_response':
        return getattr(obj, 'transform_response', None) or obj.do_transform_response
    if op == 'quick':
        return type(obj).quick_apply
    return getattr(obj, {'inverse': 'inverse_transform', 'gram': 'apply_matrix'}.get(op, op))


ATTRS = {'PCA': ['loadings', 'scores'], 'FastICA': ['components', 'sources', 'mixing', 'whitening']}


def read(kind, obj, op, data, argsink=None):
    """One read-only operation; returns a comparable observation or raises."""
    count = iter(range(9))

    def mat(a):
        m = given('a%d' % next(count), a)
        if argsink is not None:
            argsink.append(m)
        return m
    T = data['T'] if 'T' in data else data['X']
    if op == 'predict':
        return arr(obj.predict(mat(T)))
    if op == 'transform':
        return arr(obj.transform(mat(T)))
    if op == 'transform_response':
        y = data['y'][:4] if data['y'] is not None else np.zeros((4, 2))
        return arr(method(obj, op)(mat(y)))
    if op == 'quick':
        return arr(type(obj).quick_apply(mat(T)))
    if op == 'gram':
        return arr(obj.apply_matrix(mat(T)))
    if op == 'cross':
        return arr(obj.apply_matrix(mat(T), mat(T[::2] + 0.25)))
    if op == 'vector':
        return float(obj.apply_vector(mat(T[:1]), mat(T[-1:])))
    if op == 'inverse':
        return arr(obj.inverse_transform(mat(T)))
    if op == 'matrices':
        return [(n, arr(obj.get_matrix(n))) for n in obj.get_matrix_names()] + [('?', arr(obj.get_matrix('no such')))]
    if op == 'loadings':
        return [bool(obj.has_loadings()), arr(obj.get_loadings()), bool(obj.can_predict())]
    if op == 'str':
        return isinstance(str(obj), str)    # the text holds object addresses and the debug flag
    if op == 'serial':
        return _serial(obj)
    if op == 'means':
        return [arr(obj.get_means()), arr(obj.get_std_devs())]
    if op == 'attrs':
        return [(n, arr(getattr(obj, n, 'absent'))) if not isinstance(getattr(obj, n, 'absent'), str)
                else (n, 'absent') for n in ATTRS[kind]]
    if op == 'coefficients':
        c = obj.get_coefficients()
        return None if c is None else np.array(c)
    if op == 'reconstruct':
        return arr(obj.reconstruct())
    raise ValueError(op)


def outcome(fn):
    """('v', value) | ('x', exception type name)"""
    try:
        return ['v', fn()]
    except Exception as e:  # noqa
        return ['x', type(e).__name__]


def probe(kind, obj, data, ops=None):
    """All read-only operations, each as an outcome."""
    out = {}
    if kind in ALG_KINDS:
        out['initialised'] = ['v', bool(obj.is_initialised())]
    for op in (ops or read_ops(kind)):
        out[op] = outcome(lambda: read(kind, obj, op, data))
    return out


# --------------------------------------------------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------------------------------------------------
def same(a, b, rtol=1e-6, atol=1e-13):      # the data of most runs is of order one
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return bool(np.all(a == b))
        if a.size == 0:
            return True
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        a, b = a[~na], b[~na]
        ia = np.isinf(a)
        if not np.array_equal(ia, np.isinf(b)) or not np.array_equal(a[ia], b[ia]):
            return False
        a, b = a[~ia], b[~ia]
        if a.size == 0:
            return True
        scale = float(max(np.max(np.abs(a)), np.max(np.abs(b))))
        return bool(np.max(np.abs(a - b)) <= rtol * scale + atol)
    if isinstance(a, float) and isinstance(b, float):
        return same(np.array([a]), np.array([b]), rtol, atol)
    if isinstance(a, bytes) and isinstance(b, bytes):
        if a == b:
            return True
        if len(a) != len(b) or len(a) % 8:
            return False
        x, y = np.frombuffer(a, '<f8'), np.frombuffer(b, '<f8')   # headers read as denormals: must match exactly
        eq = np.frombuffer(a, '<u8') == np.frombuffer(b, '<u8')
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            return False
        scale = float(max(np.max(np.abs(x)), np.max(np.abs(y))))
        real = (np.abs(x) > 1e-300) & (np.abs(y) > 1e-300)
        return bool(np.all(eq | (real & (np.abs(x - y) <= rtol * scale + atol))))
    return type(a) is type(b) and a == b


def diff_keys(a, b):
    """Keys of two probes that differ."""
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


def brief(o):
    """Short text of an observation for messages."""
    if isinstance(o, np.ndarray):
        s = np.array2string(o.ravel()[:4], precision=5)
        return 'array%s %s' % (o.shape, s)
    if isinstance(o, (list, tuple)):
        return '[' + ', '.join(brief(x) for x in o[:4]) + (', ...' if len(o) > 4 else '') + ']'
    if isinstance(o, bytes):
        return '%d bytes' % len(o)
    return repr(o)[:80]
