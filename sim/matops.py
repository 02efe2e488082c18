"""Operations on matrices: read-only ones, decomposition queries and in-place edits, addressed by name."""
import io

import numpy as np

from . import catalog as C


def operands(d):
    """d: {'seed', 'n', 'p', 'v'} -> A (n x p), B (n x p), S (p x p), r (1 x p), c (n x 1), R (p x n) as arrays"""
    rng = np.random.Generator(np.random.PCG64([d['seed'], 99]))
    n, p = d['n'], d['p']
    out = dict(A=rng.standard_normal((n, p)), B=rng.standard_normal((n, p)) + 0.1, S=rng.standard_normal((p, p)),
               r=rng.standard_normal((1, p)), c=rng.standard_normal((n, 1)), R=rng.standard_normal((p, n)),
               p=rng.standard_normal((p, 1)))
    if d.get('v') == 'sym':
        out['S'] = out['S'] + out['S'].T
    elif d.get('v') == 'spd':
        out['S'] = out['S'] @ out['S'].T + 0.1 * np.eye(p)
    elif d.get('v') == 'eye':
        out.update(A=np.eye(n, p), S=np.eye(p), r=np.eye(1, p), c=np.eye(n, 1), R=np.eye(p, n))
    elif d.get('v') in ('ones', 'zero'):
        out.update({k: np.full_like(out[k], float(d['v'] == 'ones')) for k in 'ASrc'})
    elif d.get('v') == 'pos':
        out = {k: np.abs(v) + 0.05 for k, v in out.items()}
    elif d.get('v') == 'unit':
        out = {k: v / np.linalg.norm(v) for k, v in out.items()}
    elif d.get('v') == 'tri':
        out['S'] = np.triu(out['S'])
    elif d.get('v') == 'int':
        out = {k: np.round(v * 3) for k, v in out.items()}
    if d.get('scale'):
        out = {k: v * d['scale'] for k, v in out.items()}
    return out


VARIANTS = ['', '', '', 'sym', 'sym', 'sym', 'spd', 'spd', 'spd', 'int', 'int', 'eye', 'ones', 'zero', 'pos', 'unit',
            'tri', '']


def neutral(m):
    """Operations that leave every element as it is."""
    n, p = m.num_rows(), m.num_columns()
    f = C.L.factory
    return [m.mul(1.0), m.add(0.0), m.sub(0.0), m.div(1.0), m.pow_elementwise(1), m.add(f.zeros(n, p)),
            m.sub(f.zeros(n, p)), m.mul(f.eye(p)), m.mul_elementwise(f.filled(n, p, 1.0)),
            m.div_elementwise(f.filled(n, p, 1.0)), m.scale_by_row_vector(f.filled(p, 1, 1.0)),
            m.scale_by_column_vector(f.filled(n, 1, 1.0)), m.add_by_vector(f.zeros(1, p)), m.sub_by_vector(f.zeros(1, p)),
            m.mul_by_vector(f.filled(1, p, 1.0)), m.clip(-1e9, 1e9), m.clip_lower(-1e9), m.clip_upper(1e9),
            m.apply_elementwise(lambda x: x), m.get_rows((0, n)), m.get_columns((0, p)), m.head(n + 5), m.head(n),
            m.get_sub_matrix((0, n), (0, p)), m.get_rows(list(range(n))), m.abs(), m.sign(), m.copy(),
            C.L.helper.multi_concat(0, m), C.L.helper.delete_cols(m, [])]


QUERIES = {
    'get_eigenvectors': lambda m: m.get_eigenvectors(),
    'get_eigenvectors_dom': lambda m: m.get_eigenvectors(True),
    'get_eigenvectors_sorted_ascending': lambda m: m.get_eigenvectors_sorted_ascending(),
    'get_eigenvectors_sorted_descending': lambda m: m.get_eigenvectors_sorted_descending(),
    'get_dominant_eigenvector': lambda m: m.get_dominant_eigenvector(),
    'get_eigenvalue_decomposition_V': lambda m: m.get_eigenvalue_decomposition_V(),
    'get_eigenvalue_decomposition_D': lambda m: m.get_eigenvalue_decomposition_D(),
    'get_eigenvalues': lambda m: m.get_eigenvalues(),
    'get_eigenvalues_sorted_descending': lambda m: m.get_eigenvalues_sorted_descending(),
    'get_eigenvalues_sorted_ascending': lambda m: m.get_eigenvalues_sorted_ascending(),
    'svd_U': lambda m: m.svd_U(),
    'svd_V': lambda m: m.svd_V(),
    'svd_S': lambda m: m.svd_S(),
    'get_singular_values': lambda m: m.get_singular_values(),
}
EIGEN = [q for q in QUERIES if 'eigen' in q]


def _h():
    return C.L.helper


def _ser(m):
    s = io.BytesIO()
    m.serialise_state(s)
    return s.getvalue()


def _w(m, **kw):
    s = io.StringIO()
    _h().write(m, s, **kw)
    return s.getvalue()


READS = {
    'get_sub_matrix': lambda o: o['A'].get_sub_matrix((0, 2), (0, 2)),
    'get_rows': lambda o: o['A'].get_rows([1, 0]),
    'get_columns': lambda o: o['A'].get_columns((0, 2)),
    'sum': lambda o: [o['A'].sum(), o['A'].sum(0), o['A'].sum(1), o['A'].sum(-1)],
    'norms': lambda o: [o['A'].norm1(), o['A'].norm2(), o['A'].norm2_squared()],
    'mul': lambda o: o['A'].mul(o['R']),
    'mul_s': lambda o: o['A'].mul(2.5),
    'vector_dot': lambda o: o['r'].vector_dot(o['r']),
    'normalized': lambda o: [o['A'].normalized(0), o['c'].normalized()],
    'mul_elementwise': lambda o: o['A'].mul_elementwise(o['B']),
    'scale_by_row_vector': lambda o: [o['A'].scale_by_row_vector(o['p']), o['A'].mul_by_vector(o['r'])],
    'scale_by_column_vector': lambda o: o['A'].scale_by_column_vector(o['c']),
    'add_by_vector': lambda o: o['A'].add_by_vector(o['r']),
    'sub_by_vector': lambda o: o['A'].sub_by_vector(o['r']),
    'mul_by_vector': lambda o: o['A'].mul_by_vector(o['c']),
    'div_elementwise': lambda o: o['A'].div_elementwise(o['B']),
    'div': lambda o: o['A'].div(3.0),
    'sub': lambda o: [o['A'].sub(o['B']), o['A'].sub(1.5)],
    'add': lambda o: [o['A'].add(o['B']), o['A'].add(1.5)],
    'pow_elementwise': lambda o: o['A'].pow_elementwise(2),
    'sqrt': lambda o: o['A'].abs().sqrt(),
    'transpose': lambda o: [o['A'].transpose(), o['r'].t()],
    'get_row': lambda o: [o['A'].get_row(1), o['A'].get_column(0)],
    'inverse': lambda o: [o['S'].inverse(), o['A'].inverse()],
    'copy': lambda o: o['A'].copy(),
    'raw': lambda o: [o['A'].to_raw_copy_1D(), o['A'].to_raw_copy_2D()],
    'concat': lambda o: [o['A'].concat_along_rows(o['B']), o['A'].concat_along_columns(o['B'])],
    'apply_elementwise': lambda o: o['A'].apply_elementwise(lambda x: x * 2 + 1),
    'clip': lambda o: [o['A'].clip(-0.5, 0.5), o['A'].clip_lower(0.1), o['A'].clip_upper(0.2)],
    'sign_abs': lambda o: [o['A'].sign(), o['A'].abs()],
    'max_median': lambda o: [o['A'].max(), o['A'].median(), o['c'].median()],
    'where_vector': lambda o: o['r'].where_vector(lambda x: x > 0),
    'head': lambda o: o['A'].head(2),
    'diag': lambda o: [o['S'].diag(), o['S'].trace()],
    'mean': lambda o: [o['A'].mean(), o['A'].mean(0), o['A'].mean(1), o['A'].mean(-1)],
    'reduce': lambda o: [o['A'].reduce_rows_L1(), o['A'].reduce_columns_L1(), o['A'].reduce_rows_L2(),
                         o['A'].reduce_columns_L2()],
    'any_all': lambda o: [o['A'].any(lambda x: x > 2), o['A'].all(lambda x: x < 9), o['A'].which(lambda x: x > 1)],
    'str': lambda o: [str(o['A']), o['A'].row_str(0), o['A'].shape_string()],
    'eq': lambda o: [o['A'] == o['B'], o['A'] == o['A'], o['A'] == o['A'].copy()],
    'vector_to_diagonal': lambda o: o['r'].vector_to_diagonal(),
    'exp_tanh': lambda o: [o['A'].exp(), o['A'].tanh()],
    'pseudo_inverse': lambda o: o['A'].pseudo_inverse(),
    'serialise': lambda o: _ser(o['A']),
    'h.delete': lambda o: [_h().delete_col(o['A'], 1), _h().delete_cols(o['A'], [0, 2])],
    'h.row': lambda o: [_h().row_as_vector(o['A'], 1), _h().column_as_vector(o['A'], 1)],
    'h.mean': lambda o: [_h().mean(o['A'], 0), _h().stdev(o['A'], 0), _h().mean(o['A'], 0, False)],
    'h.euclidean': lambda o: _h().euclidean_distance(o['A'], o['B'], True),
    'h.row_norms': lambda o: _h().row_norms(o['A'], False),
    'h.equal': lambda o: [_h().equal(o['A'], o['B']), _h().equal(o['A'], o['A'].copy()),
                          _h().equal(o['A'], o['B'], 99.0)],
    'h.to_string': lambda o: [_h().to_string(o['A']), _h().to_lines(o['A'], True, ',', 3)],
    'h.write': lambda o: [_w(o['A'], header=True, separator=',', num_dec=-1),
                          _w(o['A'], header=False, separator=';', num_dec=4, scientific=True)],
    'h.dim': lambda o: [_h().dim(o['A']), _h().inverse(o['S'])],
    'h.stats': lambda o: [_h().row_means(o['A']), _h().column_means(o['A']), _h().row_stdevs(o['A']),
                          _h().column_stdevs(o['A'])],
    'h.solve': lambda o: _h().solve(o['S'], o['p']),
    'neutral': lambda o: neutral(o['A']),
    'neutral.S': lambda o: [neutral(o['S']), o['S'].transpose(), o['S'].t(), o['S'].inverse(), o['S'].diag()],
    'vectors': lambda o: [o['r'].mul(1.0), o['c'].mul(1.0), o['r'].add(0.0), o['c'].div(1.0), o['r'].transpose(), o['c'].normalized(), o['c'].get_rows((0, o['c'].num_rows())), o['c'].get_column(0),
                          o['r'].get_row(0), o['r'].median(), o['r'].vector_to_diagonal()],
    'facts': lambda o: [o['A'].contains_NaN(), o['A'].is_vector(), o['r'].is_row_vector(), o['c'].is_column_vector(),
                        o['S'].is_square(), o['A'].same_shape_as(o['B']), o['A'].is_multiplicable_with(o['R']),
                        o['A'].num_elements(), _h().row_mean(o['A'], 0), _h().column_stdev(o['A'], 0)],
    'u.sort': lambda o: [C.L.utils.sort(o['A'].to_raw_copy_1D()),
                         C.L.utils.linear_regression(o['A'].to_raw_copy_1D(), o['B'].to_raw_copy_1D())],
    'spectra': lambda o: C.L.classes['MSC'].create_configuration_matrix(
        [C.L.factory.create_spectrum(range(o['S'].num_rows()), o['S'].get_column(i).to_raw_copy_1D())
         for i in range(o['S'].num_columns())]),
    'bytes': lambda o: [o['A'].serialise_to_bytes(x) for x in (1, -7, 0.25, '', 'abc', '\u00e4\u20ac')] +
             [o['A'].serialise_big_int(x) for x in (1, 300, -5, 2 ** 40)],
    'u.sort_int': lambda o: C.L.utils.sort([int(x * 10) for x in o['A'].to_raw_copy_1D()]),
    'h.multi_concat': lambda o: _h().multi_concat(0, o['A'], o['B'], o['r']),
    'f.like': lambda o: [C.L.factory.eye_like(o['S']), C.L.factory.zeros_like(o['A']),
                         C.L.factory.filled_like(o['A'], 3), C.L.factory.rand_like(o['A'], 3),
                         C.L.factory.randn_like(o['A'], 4), C.L.factory.diag(o['c'])],
    'k.rbf': lambda o: [C.L.kernel.RBFKernel().apply_matrix(o['A'], o['B']), C.L.kernel.RBFKernel().apply_matrix(o['A'])],
    'k.poly': lambda o: [C.L.kernel.PolyKernel().apply_matrix(o['A'], o['B']),
                         C.L.kernel.PolyKernel().apply_vector(o['r'], o['r'])],
    'k.linear': lambda o: C.L.kernel.LinearKernel().apply_matrix(o['A'], o['B']),
}
for _n, _f in list(QUERIES.items()):
    READS['q.' + _n] = (lambda f: lambda o: f(o['S']))(_f)

EDITS = {
    'set': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(), a[2]),
    'set_row': lambda m, a: m.set_row(a[0] % m.num_rows(), C.M([[a[2] + i * a[3] for i in range(m.num_columns())]])),
    'set_column': lambda m, a: m.set_column(a[1] % m.num_columns(),
                                            C.M([[a[2] + i * a[3]] for i in range(m.num_rows())])),
    'set_row_part': lambda m, a: m.set_row(a[0] % m.num_rows(), C.M([[a[2] + i * a[3] for i in range(
        1 + a[1] % m.num_columns())]])),
    'set_column_part': lambda m, a: m.set_column(a[1] % m.num_columns(), C.M([[a[2] + i * a[3]] for i in range(
        1 + a[0] % m.num_rows())])),
    'set_row_long': lambda m, a: m.set_row(a[0] % m.num_rows(), C.M([[a[2] + i * a[3] for i in range(
        m.num_columns() + 2)]])),
    'set_column_long': lambda m, a: m.set_column(a[1] % m.num_columns(), C.M([[a[2] + i * a[3]] for i in range(
        m.num_rows() + 1)])),
    'set_row_turned': lambda m, a: m.set_row(a[0] % m.num_rows(), C.M([[a[2] + i * a[3]] for i in range(
        m.num_columns())])),
    'set_same': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(),
                                   m.get(a[0] % m.num_rows(), a[1] % m.num_columns()) * 1.0 + a[3]),
    'set_near': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(),
                                   m.get(a[0] % m.num_rows(), a[1] % m.num_columns()) * (1 + 9e-6)),
    'set_tiny': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(), a[2] * 3e-9),
    'set_neg': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(),
                                  -m.get(a[0] % m.num_rows(), a[1] % m.num_columns())),
    'set_swap': lambda m, a: m.set_row(a[0] % m.num_rows(), C.M(np.array(m.data)[a[0] % m.num_rows(), ::-1][None])),
    'set_swap_column': lambda m, a: m.set_column(a[1] % m.num_columns(), C.M(np.array(m.data)[
        ::-1, a[1] % m.num_columns()][:, None])),
    'set_zero': lambda m, a: m.set(a[0] % m.num_rows(), a[1] % m.num_columns(), 0.0),
    'add_by_vector_modify': lambda m, a: m.add_by_vector_modify(vec(m, a)),
    'sub_by_vector_modify': lambda m, a: m.sub_by_vector_modify(vec(m, a)),
    'mul_by_vector_modify': lambda m, a: m.mul_by_vector_modify(vec(m, a)),
    'div_by_vector_modify': lambda m, a: m.div_by_vector_modify(vec(m, a)),
    'vector_op_modify': lambda m, a: m.vector_op_modify(vec(m, a), np.maximum),
    'fill_diagonal': lambda m, a: C.L.helper.fill_diagonal(m, a[2]),
}
BAD_EDITS = {
    'set_out': lambda m, a: m.set(m.num_rows() + 3, 0, a[2]),
    'set_text': lambda m, a: m.set(0, 0, 'x'),
    'bad_vector': lambda m, a: m.add_by_vector_modify(C.M([[1.0] * (m.num_columns() + 2)])),
    'not_vector': lambda m, a: m.mul_by_vector_modify(C.M([[1.0, 2.0], [3.0, 4.0]])),
    'row_out': lambda m, a: m.set_row(m.num_rows() + 1, C.M([[1.0]])),
}
DERIVE = {
    'transpose': lambda m: m.transpose(), 't': lambda m: m.t(), 'copy': lambda m: m.copy(), 'get_rows': lambda m: m.get_rows((0, m.num_rows())),
    'get_row': lambda m: m.get_row(0), 'get_column': lambda m: m.get_column(0), 'mul': lambda m: m.mul(1.0),
    'add': lambda m: m.add(0.0), 'abs': lambda m: m.abs(), 'head': lambda m: m.head(2),
    'sub_matrix': lambda m: m.get_sub_matrix((0, m.num_rows()), (0, m.num_columns())),
}


def vec(m, a):
    x = [a[2] + (i + 1) * a[3] or 1.0 for i in range(max(m.num_rows(), m.num_columns()))]
    if a[0] % 2:
        return C.M([x[:m.num_columns()]])
    return C.M([[v] for v in x[:m.num_rows()]])


def obs(x):
    """Comparable observation of an operation's result."""
    if isinstance(x, (list, tuple)):
        return [obs(y) for y in x]
    if isinstance(x, C.L.Matrix):
        return np.array(x.data)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x
