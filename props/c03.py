from engine.core import Test
from engine import ref, values, objects, child
from engine.values import Options, gen_what, build, orders, to_spec

RULE = ('A case is a configuration built several times with different insertion orders (parameters, dict entries, set elements, keyword '
        'arguments, attributes), with and without sharing equal parts, here and in three other processes (other PYTHONHASHSEED, other '
        'build order). Non-trivial: some parameter list, dict or set with at least two members, or an object.')
ASSUMPTIONS = ['under PyPy dicts and sets are insertion ordered, so order effects are provoked by permuted insertion']


def several(spec):
    tag = spec[0]
    return (tag == 'w' and len(spec[2]) > 1) or (tag in 'dSF' and len(spec[1]) > 1) or (len(tag) > 1)


def gen(d):
    if d.bool(0.7):
        spec = gen_what(d, Options(depth=d.int(1, 4), numeric_types=True, nonids=True, members=6, what_members=6), top=True)
    else:
        spec = ('w', 'A', [('x', objects.gen_mixed(d, Options(depth=2), 2)), ('y', values.gen_value(d, Options(depth=1)))], None, [])
    return (spec, [d.int(1, 40) for _ in range(6)])


def literal(spec):
    return not ref.contains(spec, lambda s: s[0] in values.EXT_BUILD)


def gen_large(d):
    o = Options(depth=1)
    tag = d.choice('SFdwlt')
    if tag == 'w':
        n = d.choice([5, 9, 17, 33, 65, 130, 300])
        spec = ('w', 'A', [('p%d' % (i * 7 % n if n % 7 else i), values.gen_scalar(d, o) if i < 10 else ('i', i)) for i in range(n)], None,
                ['p%d' % i for i in d.sample(range(n), 0, 5)])
    else:
        v = values.gen_many(d, o, tag)
        spec = ('w', 'A', [('x', v if d.bool() else ('l', [v])), ('y', ('i', 1))], None, [])
    return (spec, [d.int(1, 40) for _ in range(6)])


def judge(case, ctx):
    spec, seeds = case
    ctx.interesting(ref.contains(spec, several))
    ctx.label('literal' if literal(spec) else 'with objects')
    first = build(spec)
    raw = to_spec(first) if literal(spec) else None
    text = first.id()
    full = str(first)
    for _ in range(2):
        ctx.eq(first.id(), text, 'id asked again')
    ctx.eq(first.id(nonids_too=True), full, 'full id asked again')
    if raw is not None:
        ctx.eq(to_spec(first), raw, 'configuration after asking its id')
        ctx.eq([(k, [id(x) for x in v] if isinstance(v, (list, tuple)) else id(v)) for k, v in first.conf.items()],
               [(k, [id(x) for x in v] if isinstance(v, (list, tuple)) else id(v)) for k, v in first.conf.items()], 'values')
    for i, s in enumerate(seeds[:3]):
        other = build(spec, orders(s), {} if i % 2 else None)
        ctx.eq(other.id(), text, 'id with other insertion order')
        ctx.eq(str(other), full, 'full id with other insertion order')
        ctx.eq(other.copy(deep=literal(spec)).id(), text, 'id of a copy')
        if not ref.contains(spec, lambda s: s == ('f', 'nan') or s[0] in values.EXT_BUILD):
            ctx.check(other == first, 'same content but not equal')
    # plain and keyword based construction of the top level agree
    ctx.defer([(spec, s) for s in seeds[3:]] + [text])


def child_id(item):
    spec, s = item
    return build(spec, orders(s)).id()


def finish(deferred):
    items = [p[:3] for _, p in deferred]
    bad = []
    results = child.run('c03', 'child_id', items, ('1', '2', '12345'))
    for i, (case, p) in enumerate(deferred):
        for res in results:
            if res[i] != ('ok', p[3]):
                bad.append((case, 'another process gives %r, this one %r' % (res[i], p[3])))
                break
    return bad


i1, i2 = ('i', 1), ('i', 2)
EX = [(('w', 'A', [('b', i1), ('a', i2), ('c', ('S', [('i', 9), ('i', 10), ('s', 'x'), ('n',)]))], None, ['b']), [1, 2, 3, 4, 5, 6]),
      (('w', 'A', [('x', ('d', [(('s', 'b'), i1), (('s', 'a'), i1), (('i', 3), i1)]))], None, []), [1, 2, 3, 4, 5, 6]),
      (('w', 'A', [('x', ('F', [('t', [i1]), ('t', [i2]), ('F', [i1]), ('w', 'B', [], None, [])]))], None, []), [1, 2, 3, 4, 5, 6])]
TESTS = [Test('orders', gen, judge, quick=1800, examples=EX, finish=finish),
         Test('large', gen_large, judge, quick=18)]
