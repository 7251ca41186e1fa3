from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_value, build

RULE = ('A case is 1 to 12 configurations, with few different values (so many ties) for 0 to 3 keys, possibly nested, of one of seven families of comparable values, '
        'sorted as configurations and as ids. Non-trivial: at least two items tie with different contents and the order changes.')
ASSUMPTIONS = ['the values of each key can be compared']

FAMILIES = {'int': [('i', x) for x in (0, 1, 2, -1, 10, 9)], 'str': [('s', x) for x in ('a', 'b', 'B', '', 'ab', '10', '9', ' a')],
            'float': [('f', x) for x in ('0.0', '-0.0', '1.5', 'inf', '-inf', '1e-07', '-2.0')],
            'mixed': [('i', 1), ('f', '1.0'), ('b', 1), ('b', 0), ('i', 0), ('f', '0.5'), ('f', '-0.0')],
            'tuple': [('t', []), ('t', [('i', 1)]), ('t', [('i', 1), ('i', 2)]), ('t', [('i', 0), ('i', 9)])],
            'list': [('l', []), ('l', [('s', 'a')]), ('l', [('s', 'a'), ('s', 'b')]), ('l', [('s', 'B')])],
            'const': [('n',)]}
KEYS = ['k', 'lag', ('n', 'k'), ('n', 'm', 'k'), 'a', 'z', 'k_k']

ABSENT = ['nowhere', ('n', 'nowhere'), ('nowhere', 'k'), 'n_k', ('n', 'm', 'k', 'k')]  # keys of no configuration


def gen(d):
    keys = d.sample(KEYS, 0, 3)
    families = [d.choice(sorted(FAMILIES)) if i or not d.bool(0.9) else d.choice(['int', 'str', 'float', 'mixed', 'tuple', 'list']) for i in range(len(keys))]
    pools = [d.sample(FAMILIES[f], 1, d.int(1, 4)) for f in families]
    if families.count('const') and len(keys) > 1:
        pass
    o = Options(depth=1, members=2, what_members=2, safe_strings=True)
    items = []
    for _ in range(d.int(1, 12)):
        items.append(([d.choice(p) for p in pools], gen_value(d, o)))
    if d.bool(0.3):
        items.append(d.choice(items))
    return keys, items, d.choice(['list', 'tuple', 'iter']), d.choice(['A', 'f', ['B', 'A', 'C'], ['f', 'g']])


def gen_many(d):
    keys = d.sample(KEYS, 1, 2)
    n = d.choice([60, 130, 260, 300] + ([1030] if d.bool(0.2) else []))
    top = d.choice([2, 20, n])
    return keys, [([('i', d.int(0, top)) for _ in keys], ('i', i)) for i in range(n)], d.choice(['list', 'tuple', 'iter']), d.choice(['A', ['B', 'A', 'C']])


def spec_of(keys, vals, extra, name):
    """('k', ('n', 'k'), ('n', 'm', 'k')) -> nested configurations."""
    tree = {'extra': extra, 'n': {'m': {}}}
    for k, v in zip(keys, vals):
        node = tree
        path = k if isinstance(k, tuple) else (k,)
        for p in path[:-1]:
            node = node[p]
        node[path[-1]] = v

    def make(node, name):
        return ('w', name, [(k, make(x, 'N' + k) if isinstance(x, dict) else x) for k, x in node.items()], None, [])
    return make(tree, name)


def judge(case, ctx):
    from whatami import sort_whats, sort_whatids, whatvalues
    keys, items, form, name = case
    specs = [spec_of(keys, vals, extra, name if isinstance(name, str) else name[i % len(name)]) for i, (vals, extra) in enumerate(items)]
    whats = [build(s) for s in specs]
    if len(items) > 1 and items[-1] in items[:-1]:
        whats[-1] = whats[items.index(items[-1])]  # the same object twice
    ids = [w.id() for w in whats]
    live = [tuple(build(v) for v in vals) for vals, _ in items]
    order = sorted(range(len(items)), key=lambda i: live[i])
    before = [repr(w) for w in whats]
    ties = {}
    for i, v in enumerate(live):
        ties.setdefault(repr(v), set()).add(ids[i])
    ctx.interesting(any(len(x) > 1 for x in ties.values()) and order != list(range(len(items))))
    ctx.label('%d keys' % len(keys))
    for w, v in zip(whats, live):
        got = whatvalues(w, tuple(keys))
        ctx.check(type(got) is tuple and repr(got) == repr(v), 'values of %r in %r: %r, expected %r', keys, w, got, v)
        if len(keys) == 1 and not isinstance(keys[0], tuple):
            ctx.eq(repr(whatvalues(w, keys[0])), repr(v), 'values of a single key')

    def compare(result, originals, what, same):
        ctx.check(len(result) == 2, '%s gives %r', what, result)
        sorted_items, vals = list(result[0]), list(result[1])
        ctx.check(len(sorted_items) == len(order) and all(same(g, originals[i]) for g, i in zip(sorted_items, order)),
                  '%s by %r: got %r, expected %r', what, keys, sorted_items, [originals[i] for i in order])
        ctx.check(len(vals) == len(order) and all(type(v) is tuple and repr(v) == repr(live[i]) for v, i in zip(vals, order)),
                  '%s by %r: values %r, expected %r', what, keys, vals, [live[i] for i in order])
    given = list(whats) if form != 'tuple' else tuple(whats)
    compare(sort_whats(given, *keys), whats, 'sort_whats', lambda a, b: a is b)
    ctx.check(all(a is b for a, b in zip(given, whats)) and len(given) == len(whats), 'the whats given were reordered')
    given = list(ids) if form != 'tuple' else tuple(ids)
    compare(sort_whatids(given, *keys), ids, 'sort_whatids', lambda a, b: a == b and type(a) is str)
    ctx.eq(list(given), ids, 'the ids given')
    absent = tuple(keys[:len(items) % (len(keys) + 1)]) + (ABSENT[len(items) % len(ABSENT)],)
    for what, call in (('whatvalues', lambda: whatvalues(whats[0], absent)), ('sort_whats', lambda: sort_whats(whats, *absent)), ('sort_whatids', lambda: sort_whatids(ids, *absent))):
        ctx.raises(KeyError, call, '%s of %r' % (what, absent))
    ctx.eq([repr(w) for w in whats], before, 'the configurations')


def item(v, x):
    return ([('i', v)], ('i', x))


EX = [([k], [item(v, n) for n, v in enumerate(vs)], f, 'A') for k in KEYS for f in ('list', 'tuple')
      for vs in ([2, 1, 2, 1], [1, 1, 1], [3, 2, 1], [1], [10, 9, 2, 10, -1])]
TESTS = [Test('sorting', gen, judge, quick=1300, examples=EX), Test('many', gen_many, judge, quick=6)]
