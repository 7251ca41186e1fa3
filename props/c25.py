import re
from engine.core import Test, Discard
from engine import arrays, child, values
from engine.values import Options

RULE = ('A case is an array (class, dtype, shape, memory layout with any axis order, steps and broadcasts), data frame or series (some of up to millions of elements), two ways of making it and one edit of its content. '
        'Non-trivial: two or more elements, or no element at all.')
ASSUMPTIONS = ['long double values are native', 'no two columns share one array (copies stop sharing)', 'data frames are rebuilt by the same construction, copied, pickled or used', 'the classes and labels of the edit are of equal kinds']

CLASSES = {'ndarray': 'ndarray', 'matrix': 'matrix', 'recarray': 'recarray', 'MyArray': 'MyArray'}


def gen_frame_way(d):
    return d.choice(['own', 'copy', 'pickle', 'use%d' % d.draw(483), 'use%d' % d.draw(483)])


def gen(d):
    spec = arrays.gen_array(d)
    return spec, (d.choice(arrays.WAYS), d.choice(arrays.WAYS)), arrays.edit_array(d, spec), values.gen_value(d, Options(depth=1, nan=False))


def gen_shapes(d):
    """The same elements in two shapes, or the same shape with other axes of length one."""
    n = d.choice([1, 0, 1, 2, 4, 6, 12])
    name = d.choice([x for x in arrays.DTYPES if x != 'O'])
    shapes = [(n,), (n, 1), (1, n), (1, n, 1), (1, 1, n)] + ([(), (1, 1, 1), (1, 1, 1, 1)] if n == 1 else []) + ([(0, 2), (2, 0), (3, 0), (0, 0), (0, 1, 2)] if n == 0 else []) \
        + [(x, n // x) for x in range(2, n) if n % x == 0]
    shapes = list(dict.fromkeys(shapes))
    one, two = d.sample(shapes, 2, 2)
    k = len(arrays.table(name)[1])
    vals = [d.draw(k - 1) for _ in range(n)]

    def put(shape):
        perm = tuple(range(len(shape)))
        return ('a', 'ndarray', name, shape, perm[::-1] if reverse else perm, (1,) * len(shape), vals)
    reverse = d.bool()
    return put(one), (d.choice(arrays.WAYS), d.choice(arrays.WAYS)), ('shape', put(two)), values.gen_value(d, Options(depth=1, nan=False))


def gen_frame(d):
    spec = arrays.gen_frame(d)
    return spec, ('own', gen_frame_way(d)), arrays.edit_frame(d, spec), values.gen_value(d, Options(depth=1, nan=False))


def class_name(spec):
    return {'df': 'DataFrame', 'se': 'Series'}.get(spec[0]) or CLASSES[spec[1]]


def raw(x):
    import numpy as np
    return x.tobytes() if isinstance(x, np.ndarray) and not x.dtype.hasobject else repr(x)


def compute(spec):
    from whatami import What
    return What('A', {'x': arrays.build(spec)}).id()


def in_place(spec, kind, edited, e, ctx):
    """The id follows changes of the same object, back and forth."""
    import numpy as np
    from whatami import What
    x = arrays.build(spec, 'own')
    i = What('A', {'x': x}).id()
    if spec[0] == 'a':
        if x.dtype.kind not in 'biufcSU' or x.dtype.char in 'gG' or x.shape != e.shape or x.dtype != e.dtype or not x.flags.writeable or 0 in x.strides and x.size:
            return
        saved, before = x.copy(), x.tobytes()
        x[...] = e
        if x.tobytes() == before:
            return
        j = What('A', {'x': x}).id()
        x[...] = saved
        if x.tobytes() == before:
            ctx.eq(What('A', {'x': x}).id(), i, 'the id with the former elements')
    elif spec[0] == 'df':
        kinds = [n for n, t in enumerate(x.dtypes) if getattr(t, 'kind', 'O') in 'if' and isinstance(t, np.dtype)]
        if not len(x) or not kinds:
            return
        before = x.iloc[0, kinds[0]]
        after = before + before.dtype.type(1)
        if not after != before or after != after:
            return
        x.iloc[0, kinds[0]] = after
        j = What('A', {'x': x}).id()
    else:
        x.name = 'another name~'
        j = What('A', {'x': x}).id()
    ctx.check(j != i, 'the id did not change with the object, changed in place')
    ctx.label('changed in place')


def judge(case, ctx):
    from whatami import What
    from whatami.plugins import WhatamiPluginManager
    spec, ways, (kind, edited), other = case
    a = arrays.build(spec, ways[0])
    before = raw(a)
    i = What('A', {'x': a}).id()
    m = re.match(r"^A\(x=(%s)\(hash='([0-9a-f]{32})'\)\)$" % class_name(spec), i)
    ctx.check(m, 'unexpected id %s', i)
    ctx.check(raw(a) == before, 'making the id changed the data')
    ctx.eq(What('A', {'x': a}).id(), i, 'the id of the same data again')
    ctx.eq(WhatamiPluginManager.build_string(a), i[4:-1], 'the text of the data alone')
    o = values.build(other)
    ctx.eq(What('B', {'x': a, 'y': o, 'z': [o, a]}).id(), What('B', {'y': o, 'x': a, 'z': [o, a]}).id(), 'other order')
    ctx.check('x=%s,' % i[4:-1] in What('B', {'x': a, 'y': o}).id(), 'the rest of the configuration changed the hash')
    b = arrays.build(spec, ways[1])
    ctx.eq(What('A', {'x': b}).id(), i, 'the id of an equal copy (%s, %s)' % ways)
    e = arrays.build(edited, ways[1] if spec[0] == 'a' or ways[1].startswith('use') else 'own')
    ctx.check(What('A', {'x': e}).id() != i, 'the id did not change with the %s', kind)
    if spec[0] != 'a':
        from engine import fixtures
        cls = fixtures.MyFrame if spec[0] == 'df' else fixtures.MySeries
        mine = What('A', {'x': cls(a)}).id()
        ctx.check(re.match(r"^A\(x=%s\(hash='[0-9a-f]{32}'\)\)$" % cls.__name__, mine), 'unexpected id of a subclass %s', mine)
        ctx.eq(What('A', {'x': cls(arrays.build(spec, 'own'))}).id(), mine, 'the id of an equal one of a subclass')
        ctx.check(kind == 'class' or What('A', {'x': cls(e)}).id() != mine, 'the id of one of a subclass did not change with the %s', kind)
    in_place(spec, kind, edited, e, ctx)
    ctx.defer(i)
    n = len(spec[6]) if spec[0] == 'a' else len(spec[1][1])
    ctx.interesting(n != 1)
    ctx.label(spec[0], 'edit %s' % kind, 'way %s' % ways[1][:3])
    if spec[0] == 'a':
        ctx.label(spec[2], spec[1], '%d dimensions' % len(spec[3]), 'steps' if set(spec[5]) - {1} else 'contiguous')
        if not spec[6]:
            ctx.label('empty')


# --- arrays of up to a few million elements

def gen_large(d):
    size = d.choice([1000, 40000, 2 ** 16, 2 ** 17 + 3, 2 ** 20, 2 ** 20 + 1, 3 * 10 ** 6])
    dtype = d.choice(['u1', 'f8', 'i4', 'f4', 'i8', '?'])
    where = d.choice(['end', 'end', 'start', 'half', 'any'])
    at = {'end': size - 1 - d.int(0, 2), 'start': d.int(0, 2), 'half': size // 2}.get(where)
    return size, dtype, d.int(0, size - 1) if at is None else at, d.choice(['C', 'F', 'flat', 'flat', 'steps', 'frame', 'series', 'list']), d.int(0, 3)


def judge_large(case, ctx):
    import numpy as np
    import pandas as pd
    from whatami import What, what2id
    size, dtype, at, form, fill = case
    base = np.arange(size) % 7 == fill if dtype == '?' else ((np.arange(size) + fill) % 101).astype(dtype)
    if form in ('C', 'F'):
        base = base[:size // 4 * 4]
        at = min(at, len(base) - 1)

    def make(a):
        if form in 'CF':
            a = np.array(a.reshape(4, -1), order=form)
        if form == 'steps':
            holder = np.zeros(2 * len(a), a.dtype)
            holder[::2] = a
            a = holder[::2]
        if form == 'frame':
            return pd.DataFrame({'a': a, 'b': a[::-1]})
        return pd.Series(a) if form == 'series' else [a[:len(a) // 2], a[len(a) // 2:]] if form == 'list' else a
    edited = base.copy()
    edited[at] = (not edited[at]) if dtype == '?' else edited[at] + 1
    i = What('A', {'x': make(base)}).id()
    ctx.eq(What('A', {'x': make(base.copy())}).id(), i, 'the id of an equal one of %d' % size)
    ctx.check(What('A', {'x': make(edited)}).id() != i, 'the id did not change with the element %d of %d', at, size)
    ctx.check(What('A', {'x': make(base[:-1] if form not in ('C', 'F') else base[:-4])}).id() != i, 'the id did not change without the end')
    ctx.interesting(size > 1000)
    ctx.label('large ' + form, 'over 1 MB' if base.nbytes > 2 ** 20 else 'up to 1 MB')


# --- masked arrays

MASKABLE = [x for x in arrays.DTYPES if x not in ('O', 'sub')]
MASKED_WAYS = ['own', 'copy', 'pickle', 'read', 'views', 'nomask']


def gen_masked(d):
    spec = arrays.gen_array(d, MASKABLE, klasses=False)
    n = len(spec[6])
    mask = arrays.fix(spec[3], spec[5], [d.bool(0.3) for _ in range(n)])
    k = len(arrays.table(spec[2])[1])
    case = spec, mask, d.choice([None, None, d.draw(k - 1)])
    kind = d.choice(['mask', 'mask', 'element', 'fill', 'dtype', 'shape', 'class'])
    if kind == 'mask':
        if not n or 0 in spec[5]:
            raise Discard()
        i = d.draw(n - 1)
        edited = spec, [m != (i == j) for j, m in enumerate(mask)], case[2]
    elif kind == 'element':
        shown = [i for i in range(n) if not mask[i]]
        if not shown or 0 in spec[5]:
            raise Discard()
        i = d.choice(shown)
        edited = spec[:6] + ([(v + (i == j)) % k for j, v in enumerate(spec[6])],), mask, case[2]
    elif kind == 'fill':
        edited = spec, mask, d.draw(k - 1)
    elif kind == 'class':
        edited = spec, None, None
    else:
        other = d.choice([x for x in MASKABLE if x != spec[2]]) if kind == 'dtype' else spec[2]
        shape = spec[3] if kind == 'dtype' else spec[3] + (1,)
        edited = spec[:2] + (other, shape, tuple(range(len(shape))) if kind == 'shape' else spec[4], (1,) * len(shape) if kind == 'shape' else spec[5], [v % len(arrays.table(other)[1]) for v in spec[6]]), mask, None
    return case, d.choice(MASKED_WAYS), (kind, edited)


def build_masked(case, way='own'):
    import numpy as np
    spec, mask, fill = case
    a = arrays.build(spec)
    if mask is None:
        return a
    m = np.array(mask, bool).reshape(spec[3])
    if a.dtype.names:
        m = np.array([(x,) * len(a.dtype.names) for x in mask], [(f, '?') for f in a.dtype.names]).reshape(spec[3]) if not any('n' == f for f in a.dtype.names) else m
    x = np.ma.MaskedArray(a, mask=np.ma.nomask if way == 'nomask' and not any(mask) else m, fill_value=None if fill is None else arrays.table(spec[2])[1][fill])
    if way == 'read':
        repr(x), x.fill_value, x.filled()
    return x


def compute_masked(case):
    from whatami import What
    return What('A', {'x': build_masked(case)}).id()


def judge_masked(case, ctx):
    import pickle
    import numpy as np
    from whatami import What
    spec, way, (kind, edited) = case
    a = build_masked(spec)
    before = np.ma.getdata(a).tobytes(), np.ma.getmaskarray(a).tobytes()
    i = What('A', {'x': a}).id()
    ctx.check(re.match(r"^A\(x=MaskedArray\(hash='([0-9a-f]{32})'\)\)$", i), 'unexpected id %s', i)
    ctx.check((np.ma.getdata(a).tobytes(), np.ma.getmaskarray(a).tobytes()) == before, 'making the id changed the data')
    ctx.eq(What('A', {'x': a}).id(), i, 'the id of the same data again')
    b = build_masked(spec, way)
    c = b.copy() if way == 'copy' else pickle.loads(pickle.dumps(b, 2)) if way == 'pickle' else b[...].view() if way == 'views' else b
    if arrays.like(np.ma.getdata(a), np.ma.getdata(c)) and c.dtype == a.dtype:
        ctx.eq(What('A', {'x': c}).id(), i, 'the id of an equal masked array (%s)' % way)
    e = build_masked(edited)
    if kind == 'fill' and (repr(np.array(e.fill_value, e.dtype).tolist()) == repr(np.array(a.fill_value, a.dtype).tolist()) or a.dtype.char in 'gG?'):
        raise Discard()
    ctx.check(What('A', {'x': e}).id() != i, 'the id did not change with the %s', kind)
    ctx.defer(i)
    ctx.interesting(any(spec[1]))
    ctx.label('masked', 'masked: edit %s' % kind, 'masked: %s' % way, 'masked ' + spec[0][2])


def finish_masked(pairs):
    bad = []
    for i, results in enumerate(child.run('c25', 'compute_masked', [(case[0], case[0]) for case, _ in pairs], ('3', '77'))):
        for (case, expected), got in zip(pairs, results):
            if got != ('ok', expected):
                bad.append((case, 'another process gives %r instead of %r' % (got[1], expected)))
    return bad


def finish(pairs):
    bad = []
    for i, results in enumerate(child.run('c25', 'compute', [(case[0], case[0]) for case, _ in pairs], ('3', '77'))):
        for (case, expected), got in zip(pairs, results):
            if got != ('ok', expected):
                bad.append((case, 'another process gives %r instead of %r' % (got[1], expected)))
    return bad


TESTS = [Test('arrays', gen, judge, quick=700, finish=finish), Test('shapes', gen_shapes, judge, quick=100), Test('masked', gen_masked, judge_masked, quick=150, finish=finish_masked), Test('frames', gen_frame, judge, quick=130, finish=finish), Test('large', gen_large, judge_large, quick=40)]
