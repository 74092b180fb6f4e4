"""C03: flattening the numeric content of a data tree into one array and writing it back.

Oracle: an independent flattener over the generated layout, and the round trip."""
import copy
import numpy as np
from hypothesis import strategies as st

from SUAVE.Core import Data
from lib.prop import Property, Sub, require, close, same_shape
from lib.strat import record

num = st.one_of(st.integers(-99, 99).map(float), st.floats(-1e6, 1e6, allow_nan=False))
KEYS = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


@st.composite
def array(draw, rows=None):
    n = rows if rows is not None else draw(st.integers(1, 4))
    r = draw(st.sampled_from([1, 2, 2]))
    if r == 1:
        return {'v': draw(st.lists(num, min_size=n, max_size=n))}
    m = draw(st.integers(1, 3))
    return {'v': draw(st.lists(st.lists(num, min_size=m, max_size=m), min_size=n, max_size=n))}


other = st.sampled_from([{'s': 'text'}, {'s': None}, {'s': [1, 2, 3]}, {'s3': 1}])


def layout(leaf, depth=0):
    node = leaf if depth >= 3 else st.one_of(leaf, leaf, st.deferred(lambda: layout(leaf, depth + 1)))
    return st.lists(st.tuples(st.sampled_from(KEYS), node).map(list), max_size=5, unique_by=lambda kv: kv[0]).map(lambda kv: {'T': kv})


def build(node):
    if 'T' in node:
        d = Data()
        for k, v in node['T']:
            d[k] = build(v)
        return d
    if 'v' in node:
        return np.array(node['v'], dtype=float)
    if 'x' in node:
        return node['x']
    if 's3' in node:
        return np.arange(8.).reshape(2, 2, 2)
    return copy.copy(node['s'])


def leaves(node, path=()):
    for k, v in node['T']:
        if 'T' in v:
            for x in leaves(v, path + (k,)):
                yield x
        else:
            yield path + (k,), v


def column_major(v):
    a = np.array(v, dtype=float)
    if a.ndim == 1:
        return list(a)
    return [a[i, j] for j in range(a.shape[1]) for i in range(a.shape[0])]


def get(d, path):
    for k in path:
        d = d[k]
    return d


def same_structure(d, node, what):
    """All non-numeric content untouched, same keys in the same order."""
    require(list(d.keys()) == [k for k, _ in node['T']], '%s: keys changed', what)
    for k, v in node['T']:
        if 'T' in v:
            same_structure(d[k], v, what)
        elif 's' in v:
            require(d[k] == v['s'] and type(d[k]) == type(v['s']), '%s: non-numeric entry %s changed', what, k)
        elif 's3' in v:
            require(np.array_equal(d[k], np.arange(8.).reshape(2, 2, 2)), '%s: 3-d entry %s changed', what, k)


def check_vector(case, ctx):
    node = case['tree']
    d = build(node)
    want = []
    for p, v in leaves(node):
        if 'x' in v:
            want.append(float(v['x']))
        elif 'v' in v:
            want.extend(column_major(v['v']))
    got = d.pack_array('vector')
    same_shape(got, (len(want),), 'packed vector')
    close(got, want, rtol=0, what='packed vector')
    got2 = build(node).pack_array()
    close(got2, want, rtol=0, what='default packing')
    same_structure(d, node, 'packing')
    # write other numbers back, read them again
    new = np.array([case['scale'] * w + case['shift'] + i for i, w in enumerate(want)])
    back = d.unpack_array(new.copy())
    require(back is d, 'unpack_array returns the object itself')
    close(d.pack_array('vector'), new, rtol=0, what='vector after unpack')
    same_structure(d, node, 'unpacking')
    i = 0
    for p, v in leaves(node):
        if 'x' in v:
            require(get(d, p) == new[i], 'scalar at %s', p)
            i += 1
        elif 'v' in v:
            a = np.array(v['v'], dtype=float)
            sub = new[i:i + a.size]
            i += a.size
            w = sub if a.ndim == 1 else np.array([[sub[c * a.shape[0] + r] for c in range(a.shape[1])] for r in range(a.shape[0])])
            same_shape(get(d, p), a.shape, 'array at %s' % (p,))
            close(get(d, p), w, rtol=0, what='array at %s' % (p,))
    if any('T' in v and any('v' in x or 'x' in x for _, x in v['T']) for _, v in node['T']) and len(want) > 3:
        ctx.hit('nested numeric')


def check_array(case, ctx):
    node = case['tree']
    d = build(node)
    cols = []
    for p, v in leaves(node):
        if 'v' in v:
            a = np.array(v['v'], dtype=float)
            a = a[:, None] if a.ndim == 1 else a
            cols.extend(a[:, j] for j in range(a.shape[1]))
    got = d.pack_array('array')
    if not cols:
        require(got.size == 0, 'packing nothing gives an empty array')
        return
    want = np.array(cols).T
    same_shape(got, want.shape, 'packed array')
    close(got, want, rtol=0, what='packed array')
    new = want * case['scale'] + case['shift'] + np.arange(want.size).reshape(want.shape)
    require(d.unpack_array(new.copy()) is d, 'unpack_array returns the object itself')
    close(d.pack_array('array'), new, rtol=0, what='array after unpack')
    same_structure(d, node, 'unpacking')
    j = 0
    for p, v in leaves(node):
        if 'v' in v:
            a = np.array(v['v'], dtype=float)
            m = 1 if a.ndim == 1 else a.shape[1]
            w = new[:, j] if a.ndim == 1 else new[:, j:j + m]
            same_shape(get(d, p), a.shape, 'array at %s' % (p,))
            close(get(d, p), w, rtol=0, what='array at %s' % (p,))
            j += m
        elif 'x' in v:
            require(get(d, p) == v['x'], 'scalars stay out of column packing')
    if want.shape[1] > 2 and want.shape[0] > 1:
        ctx.hit('columns=%d' % want.shape[1])


def check_views(case, ctx):
    """Unpacking writes into the arrays already in the tree: every other holder of them sees the new values."""
    node = case['tree']
    d = build(node)
    held = [(p, get(d, p)) for p, v in leaves(node) if 'v' in v]
    vec = d.pack_array('vector')
    d.unpack_array(vec * 2. + 1.)
    for p, a in held:
        require(get(d, p) is a, 'array at %s was replaced by another object', p)
    # the packed vector itself is a copy
    ref = d.pack_array('vector').copy()
    v2 = d.pack_array('vector')
    v2[...] = -1e9
    close(d.pack_array('vector'), ref, rtol=0, what='tree after writing into a packed vector')
    if len(held) > 1:
        ctx.hit('arrays=%d' % min(len(held), 5))


scal = num.map(lambda x: {'x': x})
iscal = st.integers(-50, 50).map(lambda x: {'x': x})
vec_leaf = st.one_of(scal, iscal, array(), array(), other)


@st.composite
def array_tree(draw):
    n = draw(st.integers(2, 5))
    t = draw(layout(st.one_of(array(rows=n), array(rows=n), st.sampled_from([{'s': 'text'}, {'s': None}, {'s3': 1}]))))
    return t


SUBS = [
    Sub('vector', record(tree=layout(vec_leaf), scale=st.sampled_from([0., 1., -2., 0.5]), shift=num), check_vector, quick=1500, rule='numbers both at the top and in a nested branch'),
    Sub('array', record(tree=array_tree(), scale=st.sampled_from([0., 1., -2., 0.5]), shift=num), check_array, quick=1200, rule='three or more columns, two or more rows'),
    Sub('views', record(tree=layout(vec_leaf)), check_views, quick=700, rule='two or more arrays in the tree'),
]
PROPERTY = Property('C03', SUBS, rule='Random nested layouts mixing scalars, 1-d and 2-d arrays and non-numeric entries, packed, rewritten and compared with an independent '
                    'column-major flattener. Non-trivial as stated per sub-check.',
                    assumptions=['arrays are floating point; column packing is used on trees whose arrays share one row count, as the mission solver does'])
