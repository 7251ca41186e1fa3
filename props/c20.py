from engine.core import Test, Discard
from engine import ref, values, mutate
from engine.values import Options, gen_what, gen_value

RULE = ('A case is a template, 2 to 10 variants of it (single and double edits, unrelated ones, copies), ignored keys taken from all of them and random flags. '
        'Non-trivial: some variants match and some do not, or an ignored key decides.')
ASSUMPTIONS = ['the output name of the whole id plays no role', 'without recursion nested configurations are taken as a whole by name and output name, so they are not varied',
               'values are compared as python does (1 == True); no nan', 'keys of dictionaries are strings or integers']


def options(d):
    return Options(depth=3, members=3, what_members=3, nan=False, safe_strings=True, what_names=['A', 'B', 'C', 'nanmean'],
                   names=['a', 'b', 'x', 'y', 'z', 'xy', 'None_', 'inf'], out=d.bool(0.5))


def ok(spec, recursive=True):
    for _, s in mutate.nodes(spec):
        if s[0] == 'd' and not all(k[0] in 'is' for k, _ in s[1]):
            return False
        if s[0] == 'f' and float(s[1]) != float(s[1]):
            return False
        if s[0] == 's' and ref.normal(s[1]) != s[1]:
            return False
        if s[0] == 'c' and s[2] in ('int', 'float', 'complex'):
            return False
        if s[0] == 'w' and s[1] in ('set', 'frozenset', 'int', 'float', 'complex'):
            return False
    return spec[0] == 'w' and spec[3] is None


def all_keys(spec):
    """Keys of any depth, as given to ignored_keys."""
    out = []

    def walk(s, path):
        if s[0] == 'w':
            kvs = s[2]
        elif s[0] in 'lt':
            kvs = list(enumerate(s[1]))
        elif s[0] == 'd':
            kvs = [(k[1], v) for k, v in s[1]]
        else:
            kvs = []
        for k, v in kvs:
            out.append(path + (k,))
            walk(v, path + (k,))
    walk(spec, ())
    return [p[0] if len(p) == 1 else p for p in out]


def gen(d):
    o = options(d)
    template = gen_what(d, o, top=True)
    template = ('w', template[1], template[2], None, [])
    variants = []
    for _ in range(d.int(2, 8)):
        v = template
        k = d.weighted([(10, 'edit'), (3, 'double'), (2, 'same'), (1, 'other')])
        if k == 'other':
            v = gen_what(d, o, top=True)
            v = ('w', template[1], v[2], None, [])
        for _ in range({'edit': 1, 'double': 2}.get(k, 0)):
            try:
                v = mutate.edit(d, v, o)
            except Discard:
                pass
        if ok(v):
            variants.append(v)
    if not ok(template):
        raise Discard()
    for _ in range(d.int(0, 2)):
        variants.insert(d.int(0, len(variants)), d.choice(variants + [template]))
    keys = sorted(set(k for s in [template] + variants for k in all_keys(s)), key=repr)
    deep = [k for k in keys if isinstance(k, tuple) and len(k) > 2]
    ignored = d.sample(keys + [('zz', 'a'), 'zz'] + deep + [k[:-1] for k in deep], 0, 3)
    flags = (d.bool(0.3), d.bool(0.4), not d.bool(0.15))
    return template, variants, ignored, flags, d.draw(5)


def gen_many(d):
    """Long lists of ids, with repetitions."""
    def some():
        return ('w', d.weighted([(9, 'A'), (1, 'B')]), [('x', ('i', d.int(0, 3))), ('y', ('w', 'B', [('z', ('i', d.int(0, 40)))], None, []))], None, [])
    n = d.choice([40, 130, 260, 300] + ([1030] if d.bool(0.2) else []))
    pool = [some() for _ in range(min(n, 60))]
    variants = pool + [d.choice(pool) for _ in range(n - len(pool))]
    return d.choice(variants), variants, d.choice([[], ['x'], [('y', 'z')], ['y']]), (False, False, True), d.draw(5)


def gen_deep(d):
    """Chains of configurations (and collections), edited somewhere below, with the ways to the edits ignored up to some point."""
    names = ['a', 'b', 'x', 'y']
    depth = d.int(3, 6)
    kinds = ['w'] * 4 + ['l', 't', 'd']
    links = [(d.choice(names), d.choice(kinds if i else ['w']), d.int(0, 1), d.bool(0.5)) for i in range(depth)]

    def chain(i, at, leaf):
        """The chain from the link i, with the scalar leaf beside the link at (or at the end)."""
        if i == depth:
            return ('i', leaf if at >= depth else 0)
        key, kind, pos, side = links[i]
        below = chain(i + 1, at, leaf)
        mark = ('i', leaf if at == i else 0)
        if kind == 'w':
            return ('w', 'A', [(key, below), ('z', mark)], None, [])
        if kind == 'd':
            return ('d', [(('s', key), below), (('s', 'z'), mark)])
        return (kind, [below, mark] if pos else [mark, below])

    def key(i):
        k, kind, pos, _ = links[i]
        return k if kind in 'wd' else 0 if pos else 1
    path = tuple(key(i) for i in range(depth))
    template = chain(0, depth, 0)
    variants = [chain(0, d.int(0, depth), d.int(1, 2)) for _ in range(d.int(1, 5))]
    if d.bool():
        variants.insert(d.int(0, len(variants)), template)
    ignored = []
    for _ in range(d.weighted([(1, 0), (6, 1), (2, 2)])):
        k = path[:d.int(1, depth)]
        change = d.weighted([(6, 'no'), (1, 'start'), (1, 'other')])
        if change == 'start':
            k = k[1:] or k
        elif change == 'other':
            k = k[:-1] + ('z',)
        ignored.append(k if len(k) > 1 else k[0])
    return template, variants, ignored, (d.bool(0.3), d.bool(0.5), True), d.draw(5)


def flatten(spec, coll, rec):
    out = []

    def value(s):
        if s[0] == 'w':
            return ('w', s[1], s[3])
        if coll and rec and s[0] in 'ltd':
            return s[0]
        return ref.eqkey(s)

    def walk(s, path):
        if s[0] == 'w':
            kvs = s[2]
        elif coll and s[0] in 'lt':
            kvs = list(enumerate(s[1]))
        elif coll and s[0] == 'd':
            kvs = [(k[1], v) for k, v in s[1]]
        else:
            return
        for k, v in kvs:
            out.append((path + (k,), value(v)))
            if rec:
                walk(v, path + (k,))
    walk(spec, ())
    return dict(out)


def matches(spec, template, ignored, coll, rec):
    if spec[1] != template[1]:
        return False
    a, b = flatten(spec, coll, rec), flatten(template, coll, rec)
    if set(a) != set(b):
        return False
    prefixes = set((k,) if not isinstance(k, tuple) else k for k in ignored)
    return all(a[p] == b[p] for p in a if not any(p[:i] in prefixes for i in range(1, len(p) + 1)))


def judge(case, ctx):
    from whatami import match_whatids
    template, variants, ignored, (non_ids, coll, rec), form = case
    if not rec:
        # nested configurations are either the same or different by name
        nested = {}
        for s in [template] + variants:
            for k, v in s[2]:
                if v[0] == 'w' and repr(ref.canon(v)) != nested.setdefault((k, v[1], v[3]), repr(ref.canon(v))):
                    raise Discard()
    texts = [ref.render(v) for v in variants]
    t = ref.render(template)
    given = list(ignored) if form == 0 else tuple(ignored) if form == 1 else iter(ignored) if form == 2 else set(ignored)
    ids = list(texts) if form % 2 == 0 else iter(texts) if form == 1 else tuple(texts)
    kwargs = {}
    if non_ids or form == 3:
        kwargs['non_ids_too'] = non_ids
    if coll or form == 3:
        kwargs['collections_too'] = coll
    if not rec or form == 3:
        kwargs['recursive'] = rec
    got = match_whatids(ids, t, ignored_keys=given, **kwargs) if ignored or form > 1 else match_whatids(ids, t, **kwargs)
    exp = [x for x, v in zip(texts, variants) if matches(v, template, ignored, coll, rec)]
    ctx.check(type(got) is list, 'got %r', got)
    ctx.eq(got, exp, 'matches of %r ignoring %r (collections %s, recursive %s) in %r' % (t, ignored, coll, rec, texts))
    ctx.interesting(0 < len(exp) < len(texts))
    strict = [x for x, v in zip(texts, variants) if matches(v, template, [], coll, rec)]
    if strict != exp:
        ctx.label('decided by ignored keys')
    if any(isinstance(k, tuple) for k in ignored):
        ctx.label('nested ignored key')
    if coll:
        ctx.label('collections')
    if not rec:
        ctx.label('not recursive')
    # the template is always selected
    ctx.eq(match_whatids([t], t, ignored_keys=list(ignored), **kwargs), [t], 'the template itself')
    # more ignored keys, more matches
    more = match_whatids(texts, t, ignored_keys=list(ignored) + all_keys(template)[:2], **kwargs)
    ctx.check([x for x in more if x in set(exp)] == exp, 'ignoring more keys loses matches: %r, before %r', more, exp)


def w(name, *kvs):
    return ('w', name, list(kvs), None, [])


X, Y = ('x', ('s', 'x')), ('y', w('B', ('x', ('s', 'yx'))))
T = w('A', X, Y)
VS = [T, w('N', X, Y), w('A', ('x', ('s', 'no')), Y), w('A', X, ('y', w('B', ('x', ('s', 'no'))))), w('A', X, ('y', w('C', ('x', ('s', 'yx'))))),
      w('A', X, ('y', ('w', 'B', [('x', ('s', 'yx'))], 'o', []))), w('A', X), w('A', X, Y, ('z', ('i', 1))), w('A', X, ('y', ('s', 'x'))), T]
L = w('A', ('x', ('l', [('i', 1), ('i', 2)])), ('y', ('d', [(('s', 'k'), ('l', [('i', 1)]))])))
LS = [L, w('A', ('x', ('l', [('i', 1), ('i', 3)])), L[2][1]), w('A', ('x', ('t', [('i', 1), ('i', 2)])), L[2][1]), w('A', ('x', ('l', [('i', 1)])), L[2][1]),
      w('A', L[2][0], ('y', ('d', [(('s', 'k'), ('l', [('i', 2)]))])))]
EX = [(T, VS, ig, (False, coll, True), f) for ig in ([], ['x'], [('y', 'x')], ['y'], ['x', 'y'], ['zz']) for coll in (False, True) for f in (0, 1, 2)] + \
     [(L, LS, ig, (False, coll, True), 0) for ig in ([], ['x'], [('x', 1)], [('y', 'k')], [('y', 'k', 0)], ['y']) for coll in (False, True)]
K0 = ('w', 'A', [('x', ('w', 'B', [], None, [])), ('y', ('l', []))], None, [])
KS = [K0] + [('w', 'A', [('x', x), ('y', y)], None, []) for x, y in [
    (K0[2][0][1], ('c', 'builtins', 'list')), (('t', [('s', 'B'), ('n',)]), ('l', [])), (('t', [('s', 'what'), ('s', 'B'), ('n',)]), ('l', [])),
    (K0[2][0][1], ('t', [('s', 'collection'), ('c', 'builtins', 'list')])), (('s', 'B'), ('l', [])), (K0[2][0][1], ('t', [])), (K0[2][0][1], ('s', '[]'))]]
EX += [(t, KS, [], (False, coll, True), 0) for t in KS for coll in (False, True)]
TESTS = [Test('variants', gen, judge, quick=900, examples=EX), Test('deep', gen_deep, judge, quick=500), Test('many', gen_many, judge, quick=6)]
