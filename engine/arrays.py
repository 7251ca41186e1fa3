"""Specs of numpy arrays, data frames and series: generation, construction in many ways, single edits.

('a', klass, dtype, shape, perm, steps, values)   perm: axes from slowest to fastest; steps: per axis, 0 is a broadcast
('df', index, columns)     index: (kind, [n]); columns: [(label, kind, [n])]
('se', index, column)
Values are small integers; table(dtype) turns them into elements.
"""
import itertools
import os
import pickle
import tempfile

from engine.core import Discard
from engine import fixtures

NUMS = [0, 1, 2, 3, 100]
SNUMS = [0, 1, -1, 5, -128]
FLOATS = [0.0, 1.0, -1.5, float('nan'), float('inf'), 2.0]
STRUCT = {
    'packed': [('a', 'i4'), ('b', 'f8')],
    'aligned': ('align', [('a', 'u1'), ('b', 'f8')]),
    'sub': [('a', 'i2', (2,)), ('b', 'U2')],
    'nested': [('n', [('a', 'u1'), ('b', 'i8')]), ('c', 'f4')],
    'nested_aligned': ('align', [('n', 'u1'), ('c', 'i8'), ('d', 'u1')]),
    'fieldview': {'names': ['b', 'a'], 'formats': ['f8', 'i4'], 'offsets': [4, 0], 'itemsize': 16},
    'fieldview2': {'names': ['b', 'a'], 'formats': ['u8', 'i4'], 'offsets': [4, 0], 'itemsize': 16},
    'fieldview3': {'names': ['b', 'a'], 'formats': ['f8', 'i4'], 'offsets': [8, 0], 'itemsize': 16},
    'fieldview4': {'names': ['b', 'a'], 'formats': ['f8', 'i4'], 'offsets': [4, 0], 'itemsize': 24},
    'gap': {'names': ['a', 'b'], 'formats': ['i4', 'u2'], 'offsets': [0, 4], 'itemsize': 8},
    'gap2': {'names': ['a', 'b'], 'formats': ['i4', 'u2'], 'offsets': [0, 6], 'itemsize': 8},
    'union': {'names': ['a', 'b'], 'formats': ['i4', 'u2'], 'offsets': [0, 2], 'itemsize': 8},
    'union2': {'names': ['a', 'b'], 'formats': ['u4', 'u2'], 'offsets': [0, 2], 'itemsize': 8},
    'nested_padded': [('n', ('align', [('a', 'u1'), ('b', 'i8')])), ('c', 'f4')],
    'renamed': [('a', 'i4'), ('c', 'f8')],
}


def table(name):
    """(dtype, elements)"""
    import numpy as np
    if name in STRUCT:
        s = STRUCT[name]
        if name == 'nested_padded':
            s = [(s[0][0], np.dtype(s[0][1][1], align=True)), s[1]]
        dt = np.dtype(s[1], align=True) if isinstance(s, tuple) else np.dtype(s)
        if name == 'sub':
            return dt, [([i, j], t) for i, j, t in [(0, 0, ''), (0, 1, ''), (1, 0, ''), (0, 0, 'a'), (0, 0, 'ab')]]
        if name in ('nested', 'nested_padded'):
            return dt, [((0, 0), 0.), ((1, 0), 0.), ((0, 1), 0.), ((0, 0), 1.), ((1, 1), 1.)]
        if name == 'nested_aligned':
            return dt, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)]
        return dt, [(0, 0), (1, 0), (0, 1), (1, 1), (2, 3)]
    dt = np.dtype(name)
    k = dt.kind
    if k == 'b':
        return dt, [False, True]
    if k == 'i':
        return dt, SNUMS
    if k == 'u':
        return dt, NUMS
    if k == 'f':
        return dt, FLOATS
    if k == 'c':
        return dt, [0j, 1j, 1 + 0j, complex('nan'), 2 - 1j]
    if k == 'S':
        return dt, [b'', b'a', b'b', b'ab', b'\x00a']
    if k == 'U':
        return dt, [u'', u'a', u'b', u'ab', u'\u00e9']
    if k in 'mM':
        return dt, [np.array(v, dt)[()] for v in ([0, 1, 2, 1000] if k == 'm' else ['2000-01-01', '2000-01-02', '1969-12-31', 'NaT'])]
    if k == 'V':
        return dt, [np.void(b'\x00' * dt.itemsize), np.void(b'\x01' + b'\x00' * (dt.itemsize - 1)), np.void(b'\x00' * (dt.itemsize - 1) + b'\x01')]
    if k == 'O':
        return dt, [None, 'a', 'ab', 1, 2.5, True, b'a', (1, 'x'), (), 10 ** 30]
    raise ValueError(name)


DTYPES = ['f8', 'i8', '?', 'f4', 'i4', 'u1', 'i1', 'i2', 'u2', 'u4', 'u8', 'f2', 'g', 'c8', 'c16', 'S3', 'S4', 'U2', 'U3', 'M8[D]', 'M8[ns]', 'm8[s]', '>i4', '>f8', 'V3', 'V8', 'O'] + sorted(STRUCT)


def gen_array(d, dtypes=DTYPES, maxdim=4, klasses=True):
    name = d.choice(dtypes)
    ndim = d.weighted([(5, 1), (1, 0), (6, 2), (3, 3), (1, 4)])
    ndim = min(ndim, maxdim)
    shape = tuple(d.weighted([(4, 2), (3, 1), (3, 3), (1, 0), (1, 5)]) for _ in range(ndim))
    layout = d.weighted([(4, 'C'), (3, 'F'), (3, 'any')])
    perm, steps = tuple(range(ndim)), (1,) * ndim
    if layout == 'F':
        perm = perm[::-1]
    elif layout == 'any':
        perm = tuple(d.shuffle(perm))
        steps = tuple(d.weighted([(6, 1), (3, 2), (2, -1), (1, 3), (1, -2), (0 if name == 'O' else 1, 0)]) for _ in range(ndim))
    klass = 'ndarray'
    if klasses and d.bool(0.2):
        klass = d.choice(['MyArray'] + (['matrix'] if ndim == 2 else []) + (['recarray'] if name in STRUCT else []))
    n = 1
    for s in shape:
        n *= s
    k = len(table(name)[1])
    return ('a', klass, name, shape, perm, steps, fix(shape, steps, [d.draw(k - 1) for _ in range(n)]))


def fix(shape, steps, values):
    """Broadcast axes repeat the values of their first element."""
    if 0 not in steps:
        return values
    out = []
    for idx in itertools.product(*[range(n) for n in shape]):
        out.append(values[flat(shape, tuple(0 if s == 0 else i for i, s in zip(idx, steps)))])
    return out


def flat(shape, idx):
    at = 0
    for n, i in zip(shape, idx):
        at = at * n + i
    return at


def strides(spec, itemsize):
    """(strides, start of the first element, bytes needed)"""
    _, _, _, shape, perm, steps, _ = spec
    out = [0] * len(shape)
    size, start = itemsize, 0
    for ax in reversed(perm):
        n, step = max(shape[ax], 1), steps[ax]
        out[ax] = size * step
        if step < 0:
            start += -size * step * (n - 1)
        size *= max(1, n * abs(step))
    return tuple(out), start, size


WAYS = ['own', 'offset', 'mmap', 'copy', 'pickle', 'readonly', 'array', 'plain']


def like(a, b):
    """The same memory layout (the strides of axes of contiguous arrays with one element mean nothing)."""
    return a.strides == b.strides or (a.flags.c_contiguous and b.flags.c_contiguous) or (a.flags.f_contiguous and b.flags.f_contiguous)


def build_array(spec, way='own', scratch=None):
    import numpy as np
    _, klass, name, shape, perm, steps, values = spec
    dt, elements = table(name)
    st, start, size = strides(spec, dt.itemsize)
    if dt.hasobject:
        big = np.empty([max(shape[ax], 1) * abs(steps[ax]) for ax in perm], dtype=dt)
        a = big.transpose([perm.index(i) for i in range(len(shape))])
        a = a if not shape else a[tuple(slice(None, None, s) if s > 0 else slice(max(n, 1) * -s - 1 if -s == 1 else (max(n, 1) - 1) * -s, None, s) for n, s in zip(shape, steps))]
        a = a[tuple(slice(0, n) for n in shape)] if shape else a
        if shape and not all(shape):
            a = a.reshape(shape) if a.shape != shape else a
    else:
        offset = 0
        if way == 'own' or way not in ('offset', 'mmap'):
            buf = bytearray(size)
        elif way == 'offset':
            offset = 16
            buf = bytearray([0xa5]) * (size + 48)
        else:
            offset = 32
            f = tempfile.NamedTemporaryFile(suffix='.mmap', delete=False, dir=scratch)
            f.write(b'\x5a' * (size + 64))
            f.close()
            buf = np.memmap(f.name, dtype='u1', mode='r+')
            os.remove(f.name)
        a = np.ndarray(shape, dtype=dt, buffer=buf, offset=offset + start, strides=st)
    for idx, v in zip(itertools.product(*[range(n) for n in shape]), values):
        e = elements[v]
        if dt.kind == 'O':
            a[idx if shape else ()] = None
            if isinstance(e, tuple):
                e = tuple(list(e))
            if shape:
                a[idx] = e
            elif not isinstance(e, tuple):
                a[()] = e
        else:
            a[idx if shape else ()] = e
    if way == 'copy':
        b = a.copy(order='K')
        a = b if like(a, b) else a
    elif way == 'pickle':
        b = pickle.loads(pickle.dumps(a, 2))
        a = b if like(a, b) and b.dtype == a.dtype else a
    elif way == 'readonly':
        a.flags.writeable = False
    elif way == 'array':
        b = np.array(a, order='K')
        a = b if like(a, b) else a
    elif way == 'plain':
        b = np.zeros(shape, dtype=dt)
        b[...] = a
        a = b if like(a, b) else a
    if klass == 'matrix':
        a = a.view(np.matrix)
    elif klass == 'recarray':
        a = a.view(np.recarray)
    elif klass == 'MyArray':
        a = a.view(fixtures.MyArray)
    return a


def edit_array(d, spec):
    """One edit that changes the content; returns (what, spec)."""
    _, klass, name, shape, perm, steps, values = spec
    kind = d.choice(['element', 'element', 'dtype', 'shape', 'order', 'class'])
    if kind == 'element':
        if not values:
            raise Discard()
        i = d.draw(len(values) - 1)
        k = len(table(name)[1])
        new = (values[i] + d.int(1, k - 1)) % k
        if name == 'O' and not shape:
            raise Discard()
        out = list(values)
        out[i] = new
        if 0 in steps:
            out = [new] * len(values) if set(steps) == {0} else fix(shape, steps, out)
        if out == values:
            raise Discard()
        return kind, ('a', klass, name, shape, perm, steps, out)
    if kind == 'dtype':
        pool = DTYPES if name not in STRUCT or d.bool(0.3) else sorted(STRUCT)
        other = d.choice([x for x in pool if x != name and (klass != 'recarray' or x in STRUCT) and not (x == 'O' and 0 in steps)])
        k = len(table(other)[1])
        if name == 'O' and not shape:
            raise Discard()
        return kind, ('a', klass, other, shape, perm, steps, [v % k for v in values])
    if kind == 'shape':
        n = len(values)
        options = [s for s in [(n,), (n, 1), (1, n), (1, n, 1), (n, 1, 1)] + [(x, n // x) for x in range(2, n) if n % x == 0] + ([(0, 2), (2, 0), (0,), (3, 0)] if n == 0 else [])
                   if s != shape and (klass != 'matrix' or len(s) == 2)]
        if not options:
            raise Discard()
        s = d.choice(options)
        return kind, ('a', klass, name, s, tuple(range(len(s))), (1,) * len(s), values)
    if kind == 'order':
        big = [i for i, n in enumerate(shape) if n > 1 and steps[i]]
        if len(big) < 2 or not values or name == 'O' and set(steps) != {1}:
            raise Discard()
        i, j = d.sample(big, 2, 2)
        p = list(perm)
        a, b = p.index(i), p.index(j)
        p[a], p[b] = p[b], p[a]
        if name == 'O' and tuple(range(len(shape))) not in (perm, tuple(p)):
            raise Discard()
        if name == 'O' and tuple(range(len(shape)))[::-1] not in (perm, tuple(p)):
            raise Discard()
        return kind, ('a', klass, name, shape, tuple(p), steps, values)
    other = d.choice([k for k in ['ndarray', 'MyArray'] + (['matrix'] if len(shape) == 2 else []) + (['recarray'] if name in STRUCT else []) if k != klass])
    return kind, ('a', other, name, shape, perm, steps, values)


# --- Data frames

COLS = {
    'int': [0, 1, -5, 7], 'float': [0.0, 1.5, None, -2.0], 'str': ['', 'a', 'b', None, u'\u00e9'], 'bool': [True, False], 'date': ['2000-01-01', '2000-01-02', None, '1999-01-01'],
    'cat': ['u', 'v', None], 'Int64': [0, 1, None], 'string': ['a', None, 'b'], 'mixed': ['a', 1, 2.5, None, (1, 2)], 'td': [0, 1, 10 ** 9], 'tz': ['2000-01-01', '2000-01-02', None],
    'int8': [0, 1, -5, 7], 'float32': [0.0, 1.5, None, -2.0], 'cat2': ['u', 'v', None], 'bytes': [b'a', b'', None], 'interval': [0, 1, 2], 'sparse': [0, 1, 2],
    'period': ['2000-01', '2000-02', None, '1999-01'], 'periodD': ['2000-01', '2000-02', None, '1999-01'], 'boolean': [True, None, False], 'UInt8': [0, 1, None], 'Sparse0': [0.0, 1.0, 2.0]}
INDEXES = {'range': list(range(30)), 'int': [0, 1, 5, -3, 7, 9, 11, 13], 'str': list('abcdefgh'), 'multi': [(1, 'a'), (1, 'b'), (2, 'a'), (2, 'b'), (3, 'a'), (3, 'c')],
           'date': ['2000-01-%02d' % i for i in range(1, 9)], 'float': [0.5, 1.5, 2.0, -1.0, 3.25, 7.0], 'cat': list('abcdef'), 'mixed': ['a', 1, 2.5, 'b', (1, 2), 'c'], 'bool': [True, False],
           'period': ['2000-01', '2000-02', '1999-01', '2000-03', '2001-01', '2002-01'], 'td': [0, 1, 2, 10, 100, 1000], 'interval': [0, 1, 2, 3, 4, 5], 'tz': ['2000-01-%02d' % i for i in range(1, 9)]}
LABELS = ['a', 'b', 'c', 'A', 'a b', '', 0, 1, 2, u'\u00e9', 1.5, ('a', 1), ('a', 2), None, True]


def gen_column(d, n, kind=None):
    kind = kind or d.choice(sorted(COLS))
    return d.choice(LABELS), kind, [d.draw(len(COLS[kind]) - 1) for _ in range(n)]


def gen_index(d, n):
    kind = d.choice(['range', 'range'] + sorted(INDEXES))
    m = len(INDEXES[kind]) - 1
    return kind, list(range(n)) if kind == 'range' else [d.draw(m) for _ in range(n)], d.choice([None, None, 'idx'])


def gen_frame(d):
    n = d.weighted([(4, 3), (2, 1), (2, 5), (1, 0)])
    if d.bool(0.35):
        return ('se', gen_index(d, n), gen_column(d, n))
    cols, seen = [], []
    kinds = d.sample(sorted(COLS), 1, 3)
    for c in d.list(lambda: gen_column(d, n, d.choice(kinds)), 0 if d.bool(0.1) else 1, 4):
        if not any(c[0] == s for s in seen) or d.bool(0.3):
            seen.append(c[0])
            cols.append(c)
    return ('df', gen_index(d, n), cols)


def column_array(kind, values):
    import pandas as pd
    xs = [COLS[kind][v] for v in values]
    if kind == 'int':
        return pd.Series(xs, dtype='int64')
    if kind in ('float', 'float32'):
        return pd.Series(xs, dtype={'float': 'float64'}.get(kind, kind))
    if kind == 'int8':
        return pd.Series(xs, dtype='int8')
    if kind == 'bool':
        return pd.Series(xs, dtype='bool')
    if kind == 'date':
        return pd.Series(pd.to_datetime(pd.Series(xs, dtype=object)))
    if kind == 'tz':
        return pd.Series(pd.to_datetime(pd.Series(xs, dtype=object), utc=True))
    if kind == 'td':
        return pd.Series(pd.to_timedelta(pd.Series(xs, dtype='int64')))
    if kind == 'cat':
        return pd.Series(pd.Categorical(xs, categories=['u', 'v']))
    if kind == 'cat2':
        return pd.Series(pd.Categorical(xs, categories=['u', 'v', 'w'], ordered=True))
    if kind == 'period':
        return pd.Series(pd.PeriodIndex(xs, freq='M'))
    if kind == 'periodD':
        return pd.PeriodIndex(xs, freq='D')
    if kind == 'Sparse0':
        return pd.Series(pd.arrays.SparseArray(xs, fill_value=0.0))
    if kind in ('Int64', 'string', 'boolean', 'UInt8'):
        return pd.Series(pd.array(xs, dtype=kind))
    if kind == 'interval':
        return pd.Series(pd.arrays.IntervalArray.from_tuples([(x, x + 1) for x in xs], dtype='interval[int64]'))
    if kind == 'sparse':
        return pd.Series(pd.arrays.SparseArray(xs, dtype='int64'))
    out = pd.Series([None] * len(xs), dtype=object)
    for i, x in enumerate(xs):
        out.iat[i] = x if not isinstance(x, tuple) else tuple(list(x))
    return out


def fresh(x):
    return tuple(list(x)) if isinstance(x, tuple) else x


def make_index(index):
    import pandas as pd
    kind, values, name = index
    xs = [fresh(INDEXES[kind][v]) for v in values]
    if kind == 'range':
        return pd.RangeIndex(len(xs), name=name)
    if kind == 'multi':
        return pd.MultiIndex.from_tuples(xs, names=[name, None]) if xs else pd.MultiIndex.from_arrays([[], []])
    if kind == 'date':
        return pd.DatetimeIndex(xs, name=name)
    if kind == 'cat':
        return pd.CategoricalIndex(xs, categories=list('abcdef'), name=name)
    if kind == 'int':
        return pd.Index(xs, dtype='int64', name=name)
    if kind == 'period':
        return pd.PeriodIndex(xs, freq='M', name=name)
    if kind == 'td':
        return pd.to_timedelta(pd.Index(xs, dtype='int64'), unit='s').rename(name)
    if kind == 'interval':
        return pd.IntervalIndex.from_tuples([(x, x + 1) for x in xs], dtype='interval[int64]', name=name)
    if kind == 'tz':
        return pd.DatetimeIndex(xs, name=name, tz='Europe/Madrid')
    if kind == 'float':
        return pd.Index(xs, dtype='float64', name=name)
    return pd.Index(xs, name=name, tupleize_cols=False)


USES = ['x.iloc[0]', 'x.sum()', 'x.values', 'repr(x)', 'x.describe()', 'x == x', 'x.isnull()', 'x.to_dict()', 'x.loc[x.index[0]]', 'x.index.is_unique', 'x.index.get_loc(x.index[0])',
        'x.sort_index()', 'x.memory_usage()', 'x[x.columns[0]]', 'x.columns.is_unique', 'x.copy()', 'list(x.items())', 'x.index.is_monotonic', 'x.head()', 'x.T', 'x.dtypes', 'x.nunique()', 'x.array.dtype', 'x.drop_duplicates()', 'x.groupby(level=0).count()', 'x.reindex(x.index[:1])', 'x.iloc[:1] + x.iloc[:1]',
        'x.index.year', 'x.index.is_unique and x.index.is_monotonic_increasing', 'x.sort_values()', 'x.dt.year', 'x.array.freq', 'x.array.nbytes', 'x.array._ndarray']


def build_frame(spec, way='own', scratch=None):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _build_frame(spec, way)


def _build_frame(spec, way):
    import pandas as pd
    kind, index, cols = spec
    ix = make_index(index)
    if kind == 'se':
        x = column_array(cols[1], cols[2])
        x = pd.Series(x.array, index=ix, name=fresh(cols[0]))
    else:
        x = pd.DataFrame({i: column_array(k, v).array for i, (_, k, v) in enumerate(cols)}, index=ix)
        names = pd.Index([fresh(c[0]) for c in cols], tupleize_cols=False)
        x.columns = names
    if way == 'copy':
        x = x.copy()
    elif way == 'pickle':
        x = pickle.loads(pickle.dumps(x))
    elif way.startswith('use'):
        n = int(way[3:])
        for u in (USES[n % len(USES)], USES[n // len(USES) % len(USES)]):
            try:
                eval(u, {'x': x})
            except Exception:
                pass
    return x


def edit_frame(d, spec):
    kind, index, cols = spec
    what = d.choice(['element', 'element', 'index', 'column', 'dtype', 'class', 'addcolumn', 'rows'])
    n = len(index[1])
    all_cols = [cols] if kind == 'se' else cols

    def put(i, c):
        if kind == 'se':
            return ('se', index, c)
        return ('df', index, cols[:i] + [c] + cols[i + 1:])
    if what in ('element', 'column', 'dtype') and not all_cols:
        raise Discard()
    if what == 'element':
        if not n:
            raise Discard()
        i = d.draw(len(all_cols) - 1)
        label, k, values = all_cols[i]
        j = d.draw(n - 1)
        new = (values[j] + d.int(1, len(COLS[k]) - 1)) % len(COLS[k])
        return what, put(i, (label, k, values[:j] + [new] + values[j + 1:]))
    if what == 'index':
        if not n:
            raise Discard()
        k, values, name = index
        if k == 'range':
            return what, (kind, ('int', [5] + [v % 8 for v in values][1:], name), cols)
        j = d.draw(n - 1)
        new = (values[j] + d.int(1, len(INDEXES[k]) - 1)) % len(INDEXES[k])
        return what, (kind, (k, values[:j] + [new] + values[j + 1:], name), cols)
    if what == 'column':
        i = d.draw(len(all_cols) - 1)
        label, k, values = all_cols[i]
        new = d.choice([x for x in LABELS if x != label and type(x) != type(label) or x != label])
        return what, put(i, (new, k, values))
    if what == 'dtype':
        i = d.draw(len(all_cols) - 1)
        label, k, values = all_cols[i]
        new = d.choice([x for x in sorted(COLS) if x != k])
        if not n and {k, new} <= {'str', 'mixed', 'bytes'} or {k, new} <= {'str', 'mixed', 'bytes'}:
            raise Discard()
        return what, put(i, (label, new, [v % len(COLS[new]) for v in values]))
    if what == 'class':
        if kind == 'se':
            return what, ('df', index, [cols])
        if len(cols) == 1:
            return what, ('se', index, cols[0])
        raise Discard()
    if what == 'addcolumn':
        if kind == 'se':
            raise Discard()
        return what, ('df', index, cols + [('new', 'int', [0] * n)])
    k, values, name = index
    more = lambda c: (c[0], c[1], c[2] + [0])
    return what, (kind, (k, values + ([n] if k == 'range' else [0]), name), more(cols) if kind == 'se' else [more(c) for c in cols])


def build(spec, way='own', scratch=None):
    return (build_array if spec[0] == 'a' else build_frame)(spec, way, scratch)
