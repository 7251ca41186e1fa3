from engine.core import Test, Discard
from engine import ref, values, mutate
from engine.values import Options, gen_what, build

RULE = ('A case is a data frame with 0 to 8 rows of ids taken, with repetitions, from 1 to 4 different configurations, an index of one of nine kinds and other columns, with '
        'columns to extract (or all), affixes and inplace. Non-trivial: an id lacks an extracted key that another one has, or the ids or the index labels repeat.')
ASSUMPTIONS = ['the new columns have names different from each other, and from the ones already there unless a copy is asked for', 'nan and None are both null; integers up to 2**53 (pandas makes '
               'floats of integers with nulls)', 'keys address parameters, not members of collections']


def gen_deep(d):
    """Configurations with configurations several levels below, extracted by lists or tuples of keys."""
    def below(depth):
        kvs = []
        for k in d.sample(['a', 'b', 'x', 'y'], 1, 2):
            kvs.append((k, below(depth - 1) if depth and d.bool(0.8) else d.choice([('i', d.int(0, 3)), ('s', d.choice('pq')), ('n',), ('l', [('i', 1)])])))
        return ('w', d.choice(['A', 'B']), kvs, None, [])
    specs = [below(d.int(1, 5)) for _ in range(d.int(1, 3))]
    rows = d.list(lambda: d.int(0, len(specs) - 1), 1, 6)
    keys = sorted(set(k for s in specs for k in what_keys(s)), key=repr)
    columns = d.sample(sorted(keys, key=lambda k: -len(k) if isinstance(k, tuple) else 0)[:8], 1, 3)
    columns = None if d.bool(0.2) else [list(k) if isinstance(k, tuple) and d.bool(0.5) else k for k in columns]
    return specs, rows, 'range', columns, d.choice(['', 'p_']), '', d.choice([None, False]), 'object', d.int(0, 1)


def gen(d):
    o = Options(depth=d.int(1, 3), members=2, what_members=3, safe_strings=True, what_names=['A', 'B', 'nanmean'],
                names=['a', 'b', 'x', 'y', 'z', 'id', 'x_y', 'None_', 'other'], nan=True)
    specs = []
    for _ in range(d.int(1, 4)):
        if specs and d.bool(0.6):
            try:
                s = mutate.edit(d, d.choice(specs), o)
            except Discard:
                s = gen_what(d, o, top=True)
        else:
            s = gen_what(d, o, top=True)
        if not ref.contains(s, lambda x: x[0] == 's' and ref.normal(x[1]) != x[1] or x[0] == 'i' and abs(x[1]) > 2 ** 53):
            specs.append(s)
    if not specs:
        raise Discard()
    rows = d.list(lambda: d.int(0, len(specs) - 1), 0, 8)
    index = d.choice(['range', 'range', 'strings', 'repeated', 'reversed', 'multi', 'floats', 'dates', 'same'])
    keys = sorted(set(k for s in specs for k in what_keys(s)), key=repr)
    columns = None
    if d.bool(0.7):
        columns = [list(k) if isinstance(k, tuple) and d.bool(0.4) else k for k in d.sample(keys + ['zz', ('zz', 'a'), ('a', 'zz'), ('x', 'y')], 0, 4)]
    return specs, rows, index, columns, d.choice(['', 'p_', None, 'x']), d.choice(['', '_q', None, ' ']), d.choice([None, True, False]), \
        d.choice(['object', 'object', 'category', 'string']), d.int(0, 2)


def gen_large(d):
    """Hundreds of different ids."""
    n = d.choice([60, 130, 260, 300] + ([1030] if d.bool(0.2) else []))
    specs = [('w', 'A', [('x', ('i', i))] + ([('y', ('w', 'B', [('z', ('i', d.int(0, 3)))], None, []))] if d.bool(0.9) else [('late', ('s', 'q'))] if i + 3 > n else []), None, []) for i in range(n)]
    rows = d.shuffle(list(range(n)))
    if d.bool(0.3):
        rows += [d.int(0, n - 1) for _ in range(20)]
    return specs, rows, d.choice(['range', 'floats', 'same', 'dates']), d.choice([None, ['x', ('y', 'z')], ['late'], [('y', 'z'), 'x', 'late']]), '', d.choice(['', '_q']), d.choice([None, False]), d.choice(['object', 'category']), d.int(0, 1)


def what_keys(s, path=()):
    out = []
    for k, v in s[2]:
        out.append(path + (k,) if path else k)
        if v[0] == 'w':
            out += what_keys(v, path + (k,))
    return out


def lookup(s, key):
    """The spec of the value, or None."""
    for k in key if isinstance(key, (tuple, list)) else (key,):
        if s[0] in 'cd':
            raise Discard()  # a member of a collection, or a generic alias
        if s[0] != 'w' or k not in dict(s[2]):
            return None
        s = dict(s[2])[k]
    return s


def null(x):
    return x is None or isinstance(x, float) and x != x


def judge(case, ctx):
    import numpy as np
    import pandas as pd
    from whatami import whatid2columns
    specs, rows, index, columns, prefix, postfix, inplace, dtype, others = case
    n = len(rows)
    ids = [ref.render(specs[i]) for i in rows]
    idx = {'range': None, 'strings': list('hgfedcba')[:n], 'repeated': ['r', 's', 'r', 'r', 's', 't', 'r', 's'][:n], 'reversed': list(range(n))[::-1],
           'multi': pd.MultiIndex.from_tuples([(i % 2, 'k%d' % (i // 3)) for i in range(n)]) if n else None, 'floats': [i / 2. for i in range(n)],
           'dates': pd.date_range('2020-01-01', periods=n), 'same': ['x'] * n}[index]
    df = pd.DataFrame({'w': pd.Series(ids, dtype=dtype if n else 'object')})
    if list(df['w']) != ids:
        raise Discard()  # pandas mixes up categories with null characters
    if others:
        df['other'] = list(range(n))
        df.insert(0, 'first', [[i] for i in range(n)] if others > 1 else ['s%d' % i for i in range(n)])
    if idx is not None:
        df.index = idx
    given = df
    before = df.copy(deep=True)
    requested = list(columns) if columns is not None else sorted(set(k for i in rows for k in what_keys(specs[i])), key=repr)
    name = lambda k: (prefix or '') + ('_'.join(map(str, k)) if isinstance(k, (tuple, list)) else k) + (postfix or '')
    names = [name(k) for k in requested]
    replaced = set(names) & set(before.columns)
    if len(set(names)) < len(names) or replaced and inplace is not False:
        raise Discard()
    if replaced:
        ctx.label('a column of the copy is replaced')
    kwargs = {}
    if columns is not None:
        kwargs['columns'] = columns
    if prefix != '':
        kwargs['prefix'] = prefix
    if postfix != '':
        kwargs['postfix'] = postfix
    if inplace is not None:
        kwargs['inplace'] = inplace
    asked = repr(columns)
    out = whatid2columns(df, 'w', **kwargs)
    ctx.eq(repr(columns), asked, 'the columns asked for')
    ctx.label('index ' + index, 'dtype ' + dtype, 'all columns' if columns is None else 'some columns')
    if inplace is False:
        ctx.check(out is not given, 'inplace=False gives the same frame')
        ctx.eq(list(given.columns), list(before.columns), 'columns of the frame given')
    else:
        ctx.check(out is given, 'inplace gives another frame')
    ctx.eq(list(out.columns[:len(before.columns)]), list(before.columns), 'old columns')
    ctx.eq(sorted(out.columns), sorted(set(before.columns) | set(names)), 'columns')
    if columns is not None:
        ctx.eq([c for c in out.columns[len(before.columns):]], [c for c in names if c not in replaced], 'order of the new columns')
    for c in before.columns:
        if c not in replaced:
            ctx.eq(list(out[c]), list(before[c]), 'content of %r' % c)
            ctx.check(out[c].dtype == before[c].dtype, 'dtype of %r', c)
        ctx.eq(list(given[c]), list(before[c]), 'content of %r in the frame given' % c)
        ctx.check(given[c].dtype == before[c].dtype, 'dtype of %r in the frame given', c)
    ctx.check(len(out) == n and out.index.equals(before.index) and list(out.index) == list(before.index), 'index %r, before %r', out.index, before.index)
    lacks = False
    for key, c in zip(requested, names):
        got = list(out[c])
        found = [lookup(specs[i], key) for i in rows]
        lacks = lacks or None in found and found != [None] * n
        for i, g, s in zip(ids, got, found):
            e = None if s is None else build(s)
            if null(e):
                ok = null(g)
            elif isinstance(e, (bool, int, float)):
                ok = not null(g) and not isinstance(g, str) and g == e
            else:
                ok = values.same(g, s)
            ctx.check(ok, 'column %r (%r) of %s has %r, expected %r', c, key, i, g, e)
    ctx.interesting(lacks or len(set(ids)) < n or index in ('repeated', 'same', 'multi'))


def w(name, *kvs):
    return ('w', name, list(kvs), None, [])


S = [w('A', ('x', ('i', 1)), ('y', w('B', ('z', ('s', 'q'))))), w('A', ('y', ('i', 2))), w('C', ('x', ('l', [('i', 1)])))]
EX = [([w('A', ('other', ('i', 7)))], [0, 0], 'range', ['other'], '', '', False, 'object', o) for o in (0, 1, 2)] + \
     [(S, rows, index, cols, pre, '', inp, dt, 2) for rows in ([0, 1, 2, 0], [1], []) for index in ('range', 'repeated', 'multi', 'strings')
      for cols, pre, inp, dt in ((None, '', True, 'object'), (['x', ('y', 'z')], 'p', False, 'object'), ([['y', 'z'], 'nope'], None, None, 'category'))]
EX += [([w('A', ('x', ('s', 'a\0b'))), w('A', ('x', ('s', 'a\0c'))), w('A', ('x', ('s', '')))], [0, 1, 2, 0], 'range', None, '', '', True, 'object', 0)]
TESTS = [Test('frames', gen, judge, quick=500, examples=EX), Test('deep', gen_deep, judge, quick=150), Test('large', gen_large, judge, quick=6)]
